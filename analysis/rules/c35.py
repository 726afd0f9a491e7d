"""Payoffs.  The summaries of settlement by fixing, of simulated quantities and of analytic
valuation of every option kind are compared with the one payoff they must share: positive
part of spot minus strike for a call, strike minus spot for a put."""
from terms import *
from common import *
from optspec import *

FLOOR = 4
OP = dict(opaque=opq("FixingTable::get", *BLACK))


def run(ck):
    ck.part(fixed_spot)
    ck.part(fixed_forward)
    ck.part(simulated)
    ck.part(analytic)


def fixed_spot(ck):
    p = method(ck, "SpotStartingEuropean", "Instrument", "fix")
    s = summ_or_unk(ck, "settled", "SpotStartingEuropean", p, OP)
    if s is None:
        return
    me, tb = args(s)
    v, k = fld(me, "vanilla"), fld(me, "strike")
    edge = at_the_money(k, get(tb, v, fld(v, "expiry")))
    ck.same("settled", "SpotStartingEuropean", ck.where(p), anon(ck, s.E.snap(s.state, s.ret)), anon(ck, spot_fixed(ck, v, k, tb)),
            conj(s.cond, neg(edge)), "an expired option is not its payoff")
    ck.count("option kinds settled")


def fixed_forward(ck):
    p = method(ck, "ForwardStartingEuropean", "Instrument", "fix")
    s = summ_or_unk(ck, "settled", "ForwardStartingEuropean", p, OP)
    if s is None:
        return
    me, tb = args(s)
    v = fld(me, "vanilla")
    g = get(tb, v, fld(me, "strike_date"))
    k = fld(okv(g), "Some.0") * fld(me, "strike_fraction")
    edge = at_the_money(k, get(tb, v, fld(v, "expiry")))

    def started(r):
        live = struct(ck, "SpotStartingEuropean", vanilla=v, strike=k)
        more = lambda o: ite(isvar(o, OPT, "Some"), Ok(o), Ok(Some(items(tup(ONE, live)))))
        return ite(isvar(r, OPT, "None"), Ok(NONE), bind(spot_fixed(ck, v, k, tb), more))
    ck.same("settled", "ForwardStartingEuropean", ck.where(p), anon(ck, s.E.snap(s.state, s.ret)), anon(ck, bind(g, started)),
            conj(s.cond, neg(edge)), "a started option is not the one with strike fraction times fixing")
    ck.count("option kinds settled")


def simulated(ck):
    import c12
    for nm, spec in sorted(c12.SPEC.items()):
        p = method(ck, nm, "MonteCarloPriceable", "mc_price")
        s = summ_or_unk(ck, "simulated", nm, p, {})
        if s is None:
            continue
        me, cx = args(s)
        obs, payoff, fl = spec(ck, me)
        paths = call("MonteCarloContext::paths", cx, obs[0][0])
        arr, j = okv(paths), T("ix", "path")
        q = vecof(mapseg(length(arr), items(payoff(lambda i: idx(idx(arr, j), num(i)))), j))
        got = s.E.snap(s.state, s.ret)
        ck.same("simulated", nm, ck.where(p), got, call("MonteCarloContext::evaluate_flows", cx, q), conj(s.cond, isok(paths)),
                "the quantity paid on a path is not the payoff")


def mask(t):
    """the payoff does not depend on how it is discounted or on the variance"""
    m = {}
    for x in subterms(t):
        if x.op == "call" and x.args[0] in BLACK[:2]:
            a = x.args[1]
            m[x] = T("call", x.args[0], (a[0], T("p", "df"), a[2], a[3], T("p", "sd")))
    return subst(t, m) if m else t


def kinds(ck):
    """(type, summary, strike, forward, extra failure, start of volatility)"""
    for nm in ("SpotStartingEuropean", "ForwardStartingEuropean"):
        p = method(ck, nm, "Priceable", "prices")
        s = summ_or_unk(ck, "analytic", nm, p, OP)
        if s is None:
            continue
        me, cx, ds, out = args(s)
        v = fld(me, "vanilla")
        u = fld(v, "underlying")
        if nm.startswith("Spot"):
            a = (u, cx, items(fld(v, "expiry")))
            k, f = fld(me, "strike"), idx(T("mut", PR, 0, a), ZERO)
            pre, frm = FALSE, before(ck)
        else:
            a = (u, cx, items(fld(me, "strike_date"), fld(v, "expiry")))
            k, f = idx(T("mut", PR, 0, a), ZERO) * fld(me, "strike_fraction"), idx(T("mut", PR, 0, a), ONE)
            pre = apply(lambda x, y: lt(y, x), call("PricingContext::spot_date", cx), F_(me, "strike_date", "date"))
            frm = fld(me, "strike_time")
        pre = disj(pre, neg(isok(T("call", PR, a))))
        yield nm, p, s, Analytic(ck, v, cx, ds, k, f, pre, frm), out, ds


def before(ck):
    return struct(ck, "DateDayFraction", date=ZERO, day_fraction=ZERO)


def shape(out, ds):
    return apply(lambda x, y: TRUE if x is y else lit(T("cmp0", sub(x, y)), "E"), length(out), length(ds))


def analytic(ck):
    for nm, p, s, A, out, ds in kinds(ck):
        ok = conj(isok(s.E.snap(s.state, s.ret)), conj(s.cond, shape(out, ds)))
        got = mask(s.E.snap(s.state, s.final(out)))
        want = mask(vecof(mapseg(A.n, A.value, A.j)))
        ck.same("analytic", nm, ck.where(p), got, want, ok, "the formula is not applied to the forward and strike of the payoff")
