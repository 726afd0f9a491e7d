"""Date moves.  The fixings a date move records are summarised for any set of instruments and
fixings and compared with: exactly those on or after the old date and before the new one, at
forward or spot.  The instruments afterwards, the bump of the market and the rebuilt pricer
are compared likewise, and a report at a future date must work on a copy."""
from terms import *
from common import *
import c10
import reports

FLOOR = 3
IX, JX = T("ix", "inst"), T("ix", "fix")
FIX = "DependencyCollector::fixings"


def run(ck):
    ck.part(window)
    ck.part(applied)
    ck.part(market)
    ck.part(pricers)
    ck.part(report)
    ck.part(copies)
    ck.part(made)


def any2(n, c, ix):
    return mk_any(n, c, ix)


def window(ck):
    p = inherent(ck, "BumpTime", "update_instruments")
    s = summ_or_unk(ck, "window", "update_instruments", p, dict(opaque=opq(FIX, "instruments::fix_all")))
    if s is None:
        return
    me, ins, cx, dep = args(s)
    dyn, new = F_(me, "spot_date_bump", "spot_dynamics"), F_(me, "spot_date_bump", "spot_date")
    old = call("PricingContext::spot_date", cx)
    m = F_(dep, "instruments")
    n = length(m)
    id, inst = T("mkey", m, IX), T("mval", m, IX)
    fs = call(FIX, dep, id)
    nf = length(fs)
    f = idx(fs, JX)
    d = F_(f, "date")
    ge = lambda a, b: neg(apply(lambda x, y: lt(x, y), a, b))
    win = conj(ge(d, old), neg(ge(d, new)))
    for v in variants(ck, "SpotDynamics"):
        vv = variant(ck, "SpotDynamics", v)
        if v == "StickySpot":
            val = call("PricingContext::spot", cx, id)
        elif v == "StickyForward":
            val = bind(call("PricingContext::forward_curve", cx, inst, new), lambda c: call("Forward::forward", c, d))
        else:
            ck.unk("window", v, ck.where(p), "unknown dynamics")
            continue
        k = T("ix", "second")
        bad = any2(n, any2(nf, conj(win, neg(isok(val))), JX), IX)
        one = lambda q: putall(T("map0"), q, JX, f, okv(val), win)
        dup = any2(n, any2(nf, subst(conj(win, has(one(k), f)), {JX: k}), k), IX)
        some = any2(n, any2(nf, win, JX), IX)
        fx = struct(ck, "Fixings", fixing_by_date=one(nf))
        if fx is None:
            ck.unk("window", v, ck.where(p), "the table of fixings has changed")
            continue
        tab = struct(ck, "FixingTable", fixings_known_until=new, fixings_by_id=putall(T("map0"), n, IX, id, fx, any2(nf, win, JX)))
        if tab is None:
            ck.unk("window", v, ck.where(p), "the table of fixings has changed")
            continue
        r = call("instruments::fix_all", ins, tab)
        o = okv(r)
        chg = isvar(o, OPT, "Some")
        want = ite(disj(bad, dup), ANYERR, ite(some, bind(r, lambda o: ite(chg, Ok(TRUE), Ok(FALSE))), Ok(FALSE)))
        sub = lambda t: subst(t, {dyn: vv})
        c = sub(s.cond)
        ck.same("window", v + "/result", ck.where(p), sub(s.E.snap(s.state, s.ret)), want, c, "not: changed exactly when a fixing in the window changed an instrument")
        ck.same("window", v + "/instruments", ck.where(p), sub(s.E.snap(s.state, s.final(ins))), ite(conj(some, chg), fld(o, "Some.0"), ins),
                conj(c, isok(want)), "not the instruments fixed at the values of the window")
        ck.count("dynamics")


UPD = "BumpTime::update_instruments"


def applied(ck):
    """instruments first, on the data as it was; then the market moves to the new date"""
    p = inherent(ck, "BumpTime", "apply")
    s = summ_or_unk(ck, "apply", "BumpTime", p, dict(opaque=opq(UPD)))
    if s is None:
        return
    me, ins, b = args(s)
    mv = variant(ck, "Bump", "SpotDate", F_(me, "spot_date_bump"))
    dep = call("Bumpable::dependencies", b)
    ua = (me, ins, call("Bumpable::context", b), okv(dep))
    u = T("call", UPD, ua)
    ba = (b, mv, NONE)
    bm = T("call", "Bumpable::bump", ba)
    want = bind(dep, lambda _: bind(u, lambda ch: bind(bm, lambda _: Ok(ch))))
    w = ck.where(p)
    ck.same("apply", "result", w, s.E.snap(s.state, s.ret), want, s.cond, "not the two steps of a date move in order")
    ok = conj(s.cond, isok(want))
    ck.same("apply", "instruments", w, s.E.snap(s.state, s.final(ins)), T("mut", UPD, 0, ua), ok, "the instruments are not updated from the data before the move")
    ck.same("apply", "market", w, s.E.snap(s.state, s.final(b)), T("mut", "Bumpable::bump", 0, ba), ok, "the market is not moved to the new date")


def market(ck):
    """the market at the new date: every spot at its forward (or as it was), everything else unchanged"""
    p = inherent(ck, "MarketData", "bump_spot_date")
    s = summ_or_unk(ck, "market", "MarketData", p, dict(opaque=opq("PricingContext::forward_curve")))
    if s is None:
        return
    me, b, dep = args(s)
    dyn, new = F_(b, "spot_dynamics"), F_(b, "spot_date")
    m, ins = F_(me, "spots"), F_(dep, "instruments")
    id, old = T("mkey", m, IX), T("mval", m, IX)
    known = has(ins, id)
    fwd = bind(call("PricingContext::forward_curve", me, at(ins, id), new), lambda c: call("Forward::forward", c, new))
    n = length(m)
    w = ck.where(p)
    for v in variants(ck, "SpotDynamics"):
        if v == "StickySpot":
            bad, spots = FALSE, m
        elif v == "StickyForward":
            bad = any2(n, conj(known, neg(isok(fwd))), IX)
            spots = putall(T("map0"), n, IX, id, ite(known, okv(fwd), old))
        else:
            ck.unk("market", v, w, "unknown dynamics")
            continue
        vv = variant(ck, "SpotDynamics", v)
        sub = lambda t: subst(t, {dyn: vv})
        ret = sub(s.E.snap(s.state, s.ret))
        after = sub(s.E.snap(s.state, s.final(me)))
        c = conj(sub(s.cond), neg(bad))
        ck.same("market", v + "/result", w, ret, ite(bad, ANYERR, Ok(UNIT)), sub(s.cond), "a forward that cannot be had is not an error, or something else is")
        want = {"spot_date": new, "spots": spots}
        for f in fields(ck, "MarketData"):
            ck.same("market", "%s/%s" % (v, f), w, fld(after, f), want.get(f, F_(me, f)), c, "%s is not what the moved market holds" % f)
    ck.count("dynamics")


def pricers(ck):
    """after a move that changed instruments the pricer is rebuilt from the moved market"""
    AP = "BumpTime::apply"
    for ty, held in (("SelfPricer", "context"), ("MonteCarloPricer", "model")):
        p = method(ck, ty, "TimeBumpable", "bump_time")
        new = ty + "::new"
        s = summ_or_unk(ck, "pricer", ty, p, dict(opaque=opq(AP, new, "BumpablePricingContext::raw_market_data")))
        if s is None:
            continue
        me, bp = args(s)
        ins, h = F_(me, "instruments"), F_(me, held)
        aa = (bp, ins, h)
        r = T("call", AP, aa)
        ins2, h2 = T("mut", AP, 0, aa), T("mut", AP, 1, aa)
        if ty == "SelfPricer":
            rb = call(new, ins2, call("BumpablePricingContext::raw_market_data", h2))
        else:
            rb = call(new, ins2, F_(me, "model_factory"), call("MonteCarloModel::raw_market_data", h2))
        w = ck.where(p)
        ch = okv(r)
        want = bind(r, lambda ch: ite(ch, bind(rb, lambda _: Ok(UNIT)), Ok(UNIT)))
        ck.same("pricer", ty + "/result", w, s.E.snap(s.state, s.ret), want, s.cond, "not the result of the move and of rebuilding")
        after = s.E.snap(s.state, s.final(me))
        ok = conj(s.cond, isok(want))
        moved = {"instruments": ins2, held: h2}
        for f in fields(ck, ty):
            ck.same("pricer", "%s/%s" % (ty, f), w, fld(after, f), ite(ch, fld(okv(rb), f), moved.get(f, F_(me, f))), ok,
                    "the pricer is not at the new date")
        ck.count("pricers")


def report(ck):
    """the future-dated report moves and prices a copy"""
    p = method(ck, "TimeBumpedReportGenerator", "ReportGenerator", "generate")
    s = summ_or_unk(ck, "report", "TimeBumped", p, dict(contract=reports.contract))
    if s is None:
        return
    me, pr, sv, base = args(s)
    w = ck.where(p)
    ck.same("report", "original", w, s.E.snap(s.state, s.final(pr)), pr, s.cond, "the original pricer is modified")
    c10.theta(ck)


def copies(ck):
    """the copy of a pricer holds what the pricer holds"""
    for ty in ("SelfPricer", "MonteCarloPricer"):
        p = method(ck, ty, "PricerClone", "clone_box")
        s = summ_or_unk(ck, "copy", ty, p, {})
        if s is None:
            continue
        me = args(s)[0]
        r = s.E.snap(s.state, s.ret)
        for f in fields(ck, ty):
            ck.same("copy", "%s/%s" % (ty, f), ck.where(p), fld(r, f), F_(me, f), s.cond, "the copy differs from the original")


def made(ck):
    """a move is the one asked for; the generator reports on everything added to it, in order"""
    p = inherent(ck, "BumpTime", "new")

    def want(date, ex, dyn):
        b = struct(ck, "BumpSpotDate", spot_date=date, spot_dynamics=dyn)
        return b and struct(ck, "BumpTime", spot_date_bump=b, _ex_from=ex)
    expect(ck, "made", "BumpTime::new", p, want, msg="not the move asked for")
    p = inherent(ck, "TimeBumpedReportGenerator", "new")
    expect(ck, "made", "TimeBumpedReportGenerator::new", p, lambda b: struct(ck, "TimeBumpedReportGenerator", bump=b, subgenerators=T("vec", ())), msg="not for the move asked for")
    p = inherent(ck, "TimeBumpedReportGenerator", "add")
    effect(ck, "made", "TimeBumpedReportGenerator::add", p, "TimeBumpedReportGenerator", lambda me, g: {"subgenerators": push(F_(me, "subgenerators"), g)}, msg="a report asked for is lost")
