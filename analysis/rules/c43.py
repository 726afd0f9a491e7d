"""What interpolators give on and between their points.  Each is summarised for any points; a
spline's curvatures, a pair of recurrences over the points, must make the slope continuous."""
from terms import *
from common import *
from c29 import curves, OPQ, EX
from c34 import by, distances

FLOOR = 3
I = length(P("any interior point"))  # some whole number


def run(ck):
    ck.part(values)
    ck.part(abscissae)
    ck.part(built)
    ck.part(smooth)
    ck.part(read)


def abscissae(ck):
    """how far apart points lie and which comes first, for every kind of abscissa"""
    for ty in ("f64", "i32"):
        expect(ck, "distance", ty, method(ck, ty, "Interpolable", "interp_diff"), lambda a, b: b - a, msg="not the distance from one point to the other")
        expect(ck, "distance", ty + "/order", method(ck, ty, "Interpolable", "interp_cmp"), lambda a, b: by((a, b)), msg="not the order of the points")
    distances(ck)


def values(ck):
    for c in curves(ck, "value"):
        c.same("on", Ok(c.y(okv(c.b))), c.hit, "not the value given there")
        c.same("between", Ok(c.seg(c.miss - ONE, c.miss)), conj(neg(c.hit), conj(neg(c.first), neg(c.past))),
               "between two points not the line or cubic through them")
        ck.count("interpolators")


def built(ck):
    for ty, path in (("Linear", ()), ("CubicSpline", ("inputs",))):
        p = inherent(ck, ty, "new")
        s = summ_or_unk(ck, "built", ty, p, OPQ)
        if s is None:
            continue
        v = s.E.snap(s.state, s.ret)
        ck.same("built", ty, ck.where(p), F_(okv(v), *(path + ("points",))), args(s)[0], conj(s.cond, isok(v)), "does not hold the points given")


def made(ck, what, p):
    """(summary, points, left, right, curvatures, condition)"""
    s = summ_or_unk(ck, "smooth", what, p, OPQ)
    if s is None:
        return None
    v = s.E.snap(s.state, s.ret)
    o = okv(v)
    i = fld(o, "inputs")
    pts = fld(i, "points")
    return s, pts, fld(i, "left"), fld(i, "right"), fld(o, "second_deriv"), conj(s.cond, isok(v))


def smooth(ck):
    for what, p in (("built", inherent(ck, "CubicSpline", "new")), ("read", method(ck, "CubicSpline", "crate::serde::Deserialize", "deserialize"))):
        m = made(ck, what, p)
        if m is None:
            continue
        s, pts, l, r, d2, ok = m
        n = length(pts)
        x = lambda i: fld(idx(pts, i), "0")
        y = lambda i: fld(idx(pts, i), "1")
        d = lambda i: idx(d2, i)
        h = lambda i: x(i + ONE) - x(i)
        dy = lambda i: (y(i + ONE) - y(i)) / h(i)
        # slope of the cubic leaving point i, and of the one arriving at point i + 1
        out = lambda i: dy(i) - h(i) * d(i) / num(3) - h(i) * d(i + ONE) / num(6)
        arr = lambda i: dy(i) + h(i) * d(i) / num(6) + h(i) * d(i + ONE) / num(3)
        nat = lambda e: isv(ck, e, EX, "Natural")
        w = ck.where(p)
        two = lt(ONE, n)
        j = T("ix", "point")
        ok = conj(ok, neg(mk_any(n - ONE, neg(lt(num("1/1000000000"), h(j))), j)))
        ck.same("smooth", what + "/slope", w, out(I) - arr(I - ONE), ZERO, conj(ok, conj(lt(ZERO, I), lt(I, n - ONE))), "the slope jumps at an interior point")
        ck.same("smooth", what + "/left natural", w, d(ZERO), ZERO, conj(ok, conj(two, nat(l))), "the natural left end is curved")
        ck.same("smooth", what + "/right natural", w, d(n - ONE), ZERO, conj(ok, conj(two, nat(r))), "the natural right end is curved")
        ck.same("smooth", what + "/left flat", w, out(ZERO), ZERO, conj(ok, conj(two, neg(nat(l)))), "the left end is not flat")
        ck.same("smooth", what + "/right flat", w, arr(n - ONE - ONE), ZERO, conj(ok, conj(two, neg(nat(r)))), "the right end is not flat")
        ck.same("smooth", what + "/length", w, length(d2), n, ok, "not one curvature per point")


def read(ck):
    pass
