"""Volatility surfaces built from data.  What each surface and smile hands out is summarised for
any pillars, date and strikes: the pillar's own smile on a pillar, total variance linear in time
along equal normalised strikes between pillars, the nearest pillar's smile beyond them."""
from terms import *
from common import *
from volspec import *
from c24 import one

FLOOR = 5
VS = "VolSurface"
INT, EXT = "VolByProbability::interpolate", "VolByProbability::extrapolate"
SEARCH = "slice::binary_search_by"


def run(ck):
    ck.part(smiles)
    ck.part(flat)
    ck.part(pillars)
    ck.part(between)
    ck.part(beyond)
    ck.part(answers)
    ck.part(wrappers)


def smiles(ck):
    filled(ck, "smile", "flat", method(ck, "FlatSmile", "VolSmile", "volatilities"), lambda me, ks, out: (Ok(UNIT), F_(me, "vol")), msg="not its one volatility")

    def spline(me, ks, out):
        r = call("Interpolate::interpolate", F_(me, "smile"), idx(ks, J))
        return ite(mk_any(length(ks), neg(isok(r)), J), ANYERR, Ok(UNIT)), okv(r)
    filled(ck, "smile", "spline", method(ck, "CubicSplineSmile", "VolSmile", "volatilities"), spline, opaque=opq("Interpolate::interpolate"),
           msg="not the spline at each strike")
    t = ck.F.trait_path("VolSmile")
    expect(ck, "smile", "volatility", "%s::volatility" % t if t else None, lambda me, k: bind(call(SMILE, me, one(k)), lambda _: Ok(at_(SMILE, me, k))),
           contract=contract, msg="not the volatility at its strike")


def flat(ck):
    filled(ck, "surface", "flat", method(ck, "FlatVolSurface", VS, "volatilities"), lambda me, d, ks, out: (
        Ok(call("Calendar::year_fraction", F_(me, "calendar"), F_(me, "base_date"), d)), F_(me, "vol")), msg="not its one volatility over the time from its base date")


def time(me, d):
    return call("Calendar::year_fraction", F_(me, "input", "calendar"), F_(me, "input", "base_date"), d)


def smile(me, i):
    return fld(idx(F_(me, "input", "smiles"), i), "1")


def pillars(ck):
    p = method(ck, "VolByProbability", VS, "volatilities")
    oq = dict(opaque=opq(INT, EXT, SMILE), contract=lambda n, j, a: fill(n, j, a) or contract(n, j, a))
    s = summ_or_unk(ck, "pillars", "choice", p, oq)
    if s is None:
        return
    me, d, ks, out = args(s)
    sm = F_(me, "input", "smiles")
    find = sorted(set(x for x in subterms(s.ret) if x.op == "call" and x.args[0] == SEARCH and x.args[1][0] is sm), key=show)
    if len(find) != 1:
        return ck.unk("pillars", "choice", ck.where(p), "the pillar is not looked up by bisection")
    b = find[0]
    f = b.args[1][1]
    if f.op != "lam" or f.args[0] != 1:
        return ck.unk("pillars", "order", ck.where(p), "the comparison is not understood")
    x = fld(P("lam1.0"), "0")
    o = lambda v: T("agg", "std::cmp::Ordering", v, ())
    ck.same("pillars", "order", ck.where(p), f.args[1], apply(lambda u, v: ite(lt(u, v), o("Less"), ite(lt(v, u), o("Greater"), o("Equal"))), x, d),
            msg="pillars are not searched by date")

    def spec(me, d, ks, out):
        n = length(sm)
        i, j = okv(b), fld(b, "Err.0")
        hit = isok(b)
        first = lit(T("cmp0", j), "E")
        last = apply(lambda u, v: neg(lt(u, v)), j, n)
        at0 = call("beyond pillar", me, ZERO, d, ks)
        atn = call("beyond pillar", me, n - ONE, d, ks)
        mid = call("between pillars", me, j - ONE, j, d, ks)
        w = lambda name, *a: T("call", name + " at", a + (idx(ks, J),))
        r = ite(hit, bind(call(SMILE, smile(me, i), ks), lambda _: Ok(idx(F_(me, "pillar_vol_times"), i))),
                ite(first, bind(at0, Ok), ite(last, bind(atn, Ok), bind(mid, Ok))))
        v = ite(hit, at_(SMILE, smile(me, i), idx(ks, J)), ite(first, w("beyond pillar", me, ZERO, d), ite(
            last, w("beyond pillar", me, n - ONE, d), w("between pillars", me, j - ONE, j, d))))
        return r, v
    filled(ck, "pillars", "choice", p, spec, msg="not the pillar of the date or its neighbours", **oq)


def fill(name, j, a):
    name = {INT: "between pillars", EXT: "beyond pillar"}.get(name)
    if name is None:
        return None
    if j is None:
        return call(name, *a[:-1])
    return vecof(mapseg(length(a[-1]), T("call", name + " at", a[:-2] + (idx(a[-2], J),)), J))


OPQ = dict(opaque=opq("Interpolate::interpolate"), contract=contract)


def between(ck):
    def spec(me, l, r, d, ks, out):
        t = time(me, d)
        T_ = lambda i: idx(F_(me, "pillar_vol_times"), i)
        S = lambda i: idx(F_(me, "pillar_sqrt_variances"), i)
        fr = (t - T_(l)) / (T_(r) - T_(l))
        lerp = lambda x, y: x + (y - x) * fr
        f = call("Interpolate::interpolate", F_(me, "input", "forward"), fld(d, "date"))
        sd = call("sqrt", lerp(S(l) * S(l), S(r) * S(r)))
        nk = call("ln", idx(ks, J) / okv(f)) / sd
        k = lambda i: idx(F_(me, "pillar_forwards"), i) * call("exp", nk * S(i))
        allk = lambda i: vecof(mapseg(length(ks), k(i), J))
        v = lambda i: T_(i) * at_(SMILE, smile(me, i), k(i)) * at_(SMILE, smile(me, i), k(i))
        down = mk_any(length(ks), lt(v(r), v(l)), J)
        none = lit(T("cmp0", length(ks)), "E")
        res = ite(none, Ok(t), binds([f, call(SMILE, smile(me, l), allk(l)), call(SMILE, smile(me, r), allk(r))], lambda *_: ite(down, ANYERR, Ok(t))))
        return res, call("sqrt", lerp(v(l), v(r)) / t)
    p = inherent(ck, "VolByProbability", "interpolate")
    filled(ck, "between", "VolByProbability", p, spec, msg="not linear in total variance along equal normalised strikes", **OPQ)


def beyond(ck):
    def spec(me, i, d, ks, out):
        t = time(me, d)
        f = call("Interpolate::interpolate", F_(me, "input", "forward"), fld(d, "date"))
        nk = call("ln", idx(ks, J) / okv(f)) / call("sqrt", t)
        k = idx(F_(me, "pillar_forwards"), i) * call("exp", nk * call("sqrt", idx(F_(me, "pillar_vol_times"), i)))
        none = lit(T("cmp0", length(ks)), "E")
        r = ite(none, Ok(t), bind(f, lambda _: bind(call(SMILE, smile(me, i), vecof(mapseg(length(ks), k, J))), lambda _: Ok(t))))
        return r, at_(SMILE, smile(me, i), k)

    def sane(me, i, d, ks, out):
        f = okv(call("Interpolate::interpolate", F_(me, "input", "forward"), fld(d, "date")))
        g = lambda x: lit(T("cmp0", x), "G")
        return conj(conj(g(f), conj(g(time(me, d)), g(idx(F_(me, "pillar_vol_times"), i)))), neg(mk_any(length(ks), neg(g(idx(ks, J))), J)))
    p = inherent(ck, "VolByProbability", "extrapolate")
    filled(ck, "beyond", "VolByProbability", p, spec, cond=sane, msg="not the pillar's smile at equal normalised strikes", **OPQ)


def answers(ck):
    v = "VolByProbability"
    for m, w in (("calendar", lambda me: F_(me, "input", "calendar")), ("base_date", lambda me: F_(me, "input", "base_date")),
                 ("forward", lambda me: Some(F_(me, "input", "forward"))), ("div_assumptions", lambda me: F_(me, "input", "div_assumptions"))):
        expect(ck, "answers", v + "/" + m, method(ck, v, VS, m), w, msg="not what it was built with")
    from c23 import displaced
    expect(ck, "answers", v + "/displacement", method(ck, v, VS, "displacement"), lambda me, d: displaced(
        ck, F_(me, "input", "div_assumptions"), call("Interpolate::interpolate", F_(me, "input", "fixed_divs_after"), d)), msg="not the displacement of its dividends",
        opaque=opq("Interpolate::interpolate"))
    f = "FlatVolSurface"
    for m, w in (("calendar", lambda me: F_(me, "calendar")), ("base_date", lambda me: F_(me, "base_date")), ("forward", lambda me: NONE),
                 ("div_assumptions", lambda me: variant(ck, "DivAssumptions", "NoCashDivs")), ("displacement", lambda me, d: Ok(ZERO))):
        expect(ck, "answers", f + "/" + m, method(ck, f, VS, m), w, msg="not what it was built with")
    expect(ck, "answers", f + "/new", inherent(ck, f, "new"), lambda v, c, b: struct(ck, f, vol=v, calendar=c, base_date=b), msg="not what it was built with")
    i = "VolByProbabilityInput"
    expect(ck, "answers", i + "/new", inherent(ck, i, "new"), lambda s, c, b, fw, fd, da: struct(
        ck, i, smiles=s, calendar=c, base_date=b, forward=fw, fixed_divs_after=fd, div_assumptions=da), msg="not what it was built with")


def wrappers(ck):
    """the surfaces users name answer as the one they wrap"""
    for ty in ("VolByProbabilityFlatSmile", "VolByProbabilityCubicSplineSmile"):
        ms = ("calendar", "base_date", "forward", "div_assumptions", "displacement")
        for m in ms:
            inner = method(ck, "VolByProbability", VS, m)
            p = method(ck, ty, VS, m)
            oq = dict(opaque=opq("Interpolate::interpolate"))
            t = summ_or_unk(ck, "wrapper", ty + "/" + m, inner, oq)
            if t is None:
                continue
            expect(ck, "wrapper", ty + "/" + m, p, lambda me, *a: subst(t.E.snap(t.state, t.ret), dict(zip(args(t), (fld(me, "0"),) + a))), msg="not what it wraps answers", **oq)
        oq = dict(opaque=opq(INT, EXT, SMILE), contract=lambda n, j, a: fill(n, j, a) or contract(n, j, a))
        t = summ_or_unk(ck, "wrapper", ty, method(ck, "VolByProbability", VS, "volatilities"), oq)
        s = summ_or_unk(ck, "wrapper", ty, method(ck, ty, VS, "volatilities"), oq)
        if s is None or t is None:
            continue
        w = ck.where(method(ck, ty, VS, "volatilities"))
        a, b = args(t), args(s)
        m = dict(zip(a, (fld(b[0], "0"),) + tuple(b[1:])))
        ck.same("wrapper", ty + "/volatilities", w, s.final(b[3]), subst(t.final(a[3]), m), s.cond, "not what it wraps answers")
        ck.same("wrapper", ty + "/time", w, s.E.snap(s.state, s.ret), subst(t.E.snap(t.state, t.ret), m), s.cond, "not what it wraps answers")
        ck.count("wrapped surfaces")
