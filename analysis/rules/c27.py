"""Missing market data.  Every look-up of the raw market data and of the prefetching layer
is summarised; it must return what is stored under the id asked for and an error when
nothing is, with the data handed on to the forward unchanged."""
from terms import *
from common import *

FLOOR = 4
KW = dict(opaque=opq("EquityForward::new", "VolTimeDynamics::modify", "VolForwardDynamics::modify", "InstanceId::id",
                     "Instrument::credit_id", "Instrument::settlement"))


def run(ck):
    ck.part(raw)
    ck.part(prefetched)
    ck.part(sources)
    ck.part(faces)


def raw(ck):
    m = lambda n: method(ck, "MarketData", "PricingContext", n)
    expect(ck, "raw", "spot", m("spot"), lambda me, id: found(F_(me, "spots"), id), **KW)
    expect(ck, "raw", "yield_curve", m("yield_curve"), lambda me, id, d: found(F_(me, "yield_curves"), id), **KW)
    expect(ck, "raw", "spot_date", m("spot_date"), lambda me: F_(me, "spot_date"), **KW)

    def fwd(me, x, d):
        id = ID(x)
        return binds([found(F_(me, "spots"), id), found(F_(me, "dividends"), id), found(F_(me, "borrow_curves"), id),
                      found(F_(me, "yield_curves"), call("Instrument::credit_id", x))],
                     lambda s, dv, b, y: bind(call("EquityForward::new", F_(me, "spot_date"), s, call("Instrument::settlement", x), y, b, dv, d), Ok))
    expect(ck, "raw", "forward_curve", m("forward_curve"), fwd, **KW)

    def vol(me, x, d, f):
        def g(v):
            a = (call("Instrument::vol_time_dynamics", x), v, F_(me, "spot_date"))
            v1 = T("mut", "VolTimeDynamics::modify", 0, a)
            b = (call("Instrument::vol_forward_dynamics", x), v1, f)
            return bind(T("call", "VolTimeDynamics::modify", a), lambda _: bind(T("call", "VolForwardDynamics::modify", b),
                        lambda _: Ok(T("mut", "VolForwardDynamics::modify", 0, b))))
        return bind(found(F_(me, "vol_surfaces"), ID(x)), g)
    expect(ck, "raw", "vol_surface", m("vol_surface"), vol, **KW)
    ck.count("raw look-ups", 5)


def prefetched(ck):
    m = lambda n: method(ck, "PricingContextPrefetch", "PricingContext", n)
    expect(ck, "prefetched", "spot", m("spot"), lambda me, id: found(F_(me, "context", "spots"), id), **KW)
    expect(ck, "prefetched", "yield_curve", m("yield_curve"), lambda me, id, d: found(F_(me, "context", "yield_curves"), id), **KW)
    expect(ck, "prefetched", "spot_date", m("spot_date"), lambda me: F_(me, "context", "spot_date"), **KW)
    expect(ck, "prefetched", "forward_curve", m("forward_curve"), lambda me, x, d: found(F_(me, "forward_curves"), ID(x)), **KW)
    expect(ck, "prefetched", "vol_surface", m("vol_surface"), lambda me, x, d, f: found(F_(me, "vol_surfaces"), ID(x)), **KW)
    ck.count("prefetched look-ups", 5)


def sources(ck):
    """the store holds what it was given"""
    p = inherent(ck, "MarketData", "new")
    expect(ck, "store", "MarketData::new", p,
           lambda d, s, y, b, v, vs: struct(ck, "MarketData", spot_date=d, spots=s, yield_curves=y, borrow_curves=b, dividends=v, vol_surfaces=vs))


def faces(ck):
    """a layer asked for its market gives itself, and for the raw data the data it holds"""
    own = lambda me: me
    for ty, raw in (("MarketData", own), ("PricingContextPrefetch", lambda me: F_(me, "context"))):
        for tr, m, want in (("Bumpable", "context", own), ("BumpablePricingContext", "as_pricing_context", own),
                            ("BumpablePricingContext", "as_bumpable", own), ("BumpablePricingContext", "as_mut_bumpable", own),
                            ("BumpablePricingContext", "raw_market_data", raw)):
            expect(ck, "face", "%s::%s" % (ty, m), method(ck, ty, tr, m), want, msg="the market seen through %s is another one" % m)
    below = lambda tr, m, f: (lambda me: call("%s::%s" % (tr, m), F_(me, f)))
    for ty, tr, m, want in (
            ("SelfPricer", "Bumpable", "context", lambda me: F_(me, "context")),
            ("SelfPricer", "Pricer", "as_bumpable", own), ("SelfPricer", "Pricer", "as_mut_bumpable", own),
            ("SelfPricer", "Pricer", "as_mut_time_bumpable", own),
            ("MonteCarloPricer", "Bumpable", "context", below("Bumpable", "context", "model")),
            ("MonteCarloPricer", "Bumpable", "dependencies", below("Bumpable", "dependencies", "model")),
            ("MonteCarloPricer", "Pricer", "as_bumpable", own), ("MonteCarloPricer", "Pricer", "as_mut_bumpable", own),
            ("MonteCarloPricer", "Pricer", "as_mut_time_bumpable", own),
            ("BlackDiffusion", "Bumpable", "context", lambda me: F_(me, "context")),
            ("BlackDiffusion", "Bumpable", "dependencies", below("Bumpable", "dependencies", "context")),
            ("BlackDiffusion", "MonteCarloModel", "raw_market_data", below("BumpablePricingContext", "raw_market_data", "context")),
            ("BlackDiffusion", "MonteCarloModel", "as_bumpable", own), ("BlackDiffusion", "MonteCarloModel", "as_mut_bumpable", own)):
        expect(ck, "face", "%s::%s" % (ty, m), method(ck, ty, tr, m), want, msg="the market seen through %s is another one" % m)
