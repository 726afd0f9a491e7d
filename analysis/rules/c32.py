"""Preconditions.  The condition under which a constructor, or a reader, hands out an object is
value-numbered for any input and must exclude every input the object must not be made of.  The fields
so guarded are private, and nothing but those functions (and copies) fills them."""
from terms import *
from common import *
import c14
import c43
from c29 import OPQ

FLOOR = 8
IX = T("ix", "point")
DE = "crate::serde::Deserialize"


def run(ck):
    ck.part(points)
    ck.part(surfaces)
    ck.part(fractions)
    ck.part(c43.abscissae)
    ck.part(c14.construction)
    ck.part(c14.insertion)
    ck.part(c14.reading)
    ck.part(closed)


def empty(xs):
    return apply(lambda n: lit(T("cmp0", n), "E"), length(xs))


def refused(ck, what, p, kw, bad, msg):
    """nothing is handed out where bad(what it would be) holds"""
    s = summ_or_unk(ck, "refused", what, p, kw)
    if s is None:
        return
    v = s.E.snap(s.state, s.ret)
    c, o = s.cond, v
    if what != "DateDayFraction::new":
        c, o = conj(c, isok(v)), okv(v)
    ck.count("constructors and readers")
    ck.same("refused", what, ck.where(p), bad(s, o), FALSE, c, msg)


def unordered(xs):
    a, b = (fld(idx(xs, i), "0") for i in (IX - ONE, IX))
    falls = apply(lambda d: neg(lt(ZERO, d)), b - a)
    return mk_any(length(xs), ite(lit(T("cmp0", IX), "E"), FALSE, falls), IX)


def points(ck):
    for what, p, path, kw in (
            ("Linear::new", inherent(ck, "Linear", "new"), ("points",), OPQ),
            ("Linear read", method(ck, "Linear", DE, "deserialize"), ("points",), OPQ),
            ("CubicSpline::new", inherent(ck, "CubicSpline", "new"), ("inputs", "points"), OPQ),
            ("CubicSpline read", method(ck, "CubicSpline", DE, "deserialize"), ("inputs", "points"), OPQ),
            ("CubicSplineSmile::new", inherent(ck, "CubicSplineSmile", "new"), ("smile", "inputs", "points"), {}),
            ("RateCurveAct365::new", inherent(ck, "RateCurveAct365", "new"), ("interp", "points"), {})):
        for why, f in (("empty", empty), ("order", unordered)):
            refused(ck, what + "/" + why, p, kw, lambda s, o: f(F_(o, *path)),
                    "an object without points is made" if why == "empty" else "an object is made of points that are not in increasing order")


def surfaces(ck):
    p = inherent(ck, "VolByProbability", "new")
    refused(ck, "VolByProbability::new", p, dict(opaque=opq("Interpolate::interpolate", "VolSmile::volatility", "VolSmile::volatilities")),
            lambda s, o: empty(F_(args(s)[0], "smiles")), "a surface without smiles is made")


def fractions(ck):
    out = lambda x: disj(lt(x, ZERO), neg(lt(x, ONE)))
    refused(ck, "DateDayFraction::new", inherent(ck, "DateDayFraction", "new"), {}, lambda s, o: out(fld(o, "day_fraction")), "a fraction of a day out of range is accepted")
    refused(ck, "DateDayFraction read", method(ck, "DateDayFraction", DE, "deserialize"), {}, lambda s, o: out(fld(o, "day_fraction")), "a fraction of a day out of range is read")
    expect(ck, "held", "DateDayFraction::new", inherent(ck, "DateDayFraction", "new"), lambda d, f: struct(ck, "DateDayFraction", date=d, day_fraction=f),
           msg="not the date and fraction given")


GUARDED = ("Linear", "CubicSpline", "CubicSplineInputs", "CubicSplineSmile", "RateCurveAct365", "VolByProbability", "DateDayFraction", "Fixings", "FixingTable")


def closed(ck):
    """the checked fields cannot be reached from outside"""
    for nm in GUARDED:
        a = [x for x in ck.F.adts if x.split("::")[-1] == nm]
        if len(a) != 1:
            ck.unk("closed", nm, "", "no such type")
            continue
        d = ck.F.adts[a[0]]
        fs = [f["n"] for v in d["variants"] for f in v["fields"] if f["vis"] == "pub"]
        ck.require(not (fs and d["effvis"]), "closed", nm, d["span"], "its %s can be altered after it was checked" % ", ".join(fs))
