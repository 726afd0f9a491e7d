"""Composites.  The valuation, dependency declaration and simulation of baskets and of the
pricers that hold weighted lists are summarised for lists of any length; each must be the
sum, over every component, of weight times the component's own value on the same dates and
context, and must fail when any component fails."""
from terms import *
from common import *

FLOOR = 5
IX = T("ix", "comp")
PR = "Priceable::prices"


def run(ck):
    ck.part(basket_prices)
    ck.part(basket_dependencies)
    ck.part(basket_fix)
    ck.part(pricers)
    ck.part(pricer_new)
    ck.part(factories)


def none(x, m):
    return isvar(call("Instrument::" + m, x), OPT, "None")


def basket_prices(ck):
    p = method(ck, "Basket", "Priceable", "prices")
    s = summ_or_unk(ck, "basket", "prices", p, {})
    if s is None:
        return
    me, cx, ds, out = args(s)
    xs = F_(me, "basket")
    n, it = length(xs), fld(idx(xs, IX), "1")
    a = (it, cx, ds)
    bad = mk_any(n, disj(none(it, "as_priceable"), neg(isok(T("call", PR, a)))), IX)
    ck.same("basket", "prices/result", ck.where(p), s.E.snap(s.state, s.ret), ite(bad, ANYERR, Ok(UNIT)), s.cond,
            "the basket succeeds exactly when every component does")
    # where it returns a value, the lengths agree and every component was priceable
    sh = conj(neg(bad), apply(lambda x, y: eq0(x - y), length(out), length(ds)))
    j = T("ix", "date")
    want = vecof(mapseg(length(ds), summ(n, fld(idx(xs, IX), "0") * idx(T("mut", PR, 0, a), j), IX), j))
    ck.same("basket", "prices/values", ck.where(p), s.E.snap(s.state, s.final(out)), want, conj(s.cond, sh),
            "not the weighted sum of the components")
    ck.count("composites")


def eq0(d):
    return lit(T("cmp0", d), "E") if d.op != "num" else (TRUE if d is ZERO else FALSE)


def basket_dependencies(ck):
    p = method(ck, "Basket", "Instrument", "dependencies")
    s = summ_or_unk(ck, "basket", "dependencies", p, {})
    if s is None:
        return
    me, cx = args(s)
    xs = F_(me, "basket")
    acc, it = T("ix", "acc"), fld(idx(xs, IX), "1")
    d = (it, acc)
    c1 = T("mut", "Instrument::dependencies", 0, d)
    body = ite(isv(ck, T("call", "Instrument::dependencies", d), "SpotRequirement", "NotRequired"), c1, T("mut", "DependencyContext::spot", 0, (c1, it)))
    want = fold(cx, length(xs), body, acc, IX)
    ck.same("basket", "dependencies", ck.where(p), s.E.snap(s.state, s.final(cx)), want, s.cond,
            "not every component's dependencies are declared")


def fold(init, n, body, acc, ix):
    lv = bvlevel(body) + 1
    return T("fold", init, n, lv, subst(body, {ix: T("bv", lv), acc: T("acc", lv)}))


def basket_fix(ck):
    """the fixed basket is the fixed list of its components, with its other terms kept"""
    p = method(ck, "Basket", "Instrument", "fix")
    O = dict(opaque=opq("instruments::fix_all", "fix_all"))
    s = summ_or_unk(ck, "basket", "fix", p, O)
    if s is None:
        return
    me, tb = args(s)
    f = call("instruments::fix_all", F_(me, "basket"), tb)
    want = bind(f, lambda r: ite(isvar(r, OPT, "None"), Ok(NONE), Ok(Some(T("vec", (("it", tup(num(1), struct(
        ck, "Basket", id=T("call", "format", ()), credit_id=F_(me, "credit_id"), currency=F_(me, "currency"),
        settlement=F_(me, "settlement"), basket=fld(r, "Some.0")))),))))))
    got = s.E.snap(s.state, s.ret)
    nm = lambda x: BASKETID(ck, x)
    ck.same("basket", "fix", ck.where(p), nm(got), nm(want), s.cond, "the fixed basket is not its fixed components under the same terms")


def BASKETID(ck, t):
    """ids of new objects are free to choose"""
    b = ck.F.adt_path("Basket")
    m = {}
    for x in subterms(t):
        if x.op == "agg" and x.args[0] == b:
            m[x] = T("agg", b, x.args[1], tuple((n, v) for n, v in x.args[2] if n != "id"))
    return subst(t, m) if m else t


def weighted(ck, inst, ty, fn, asname, value):
    p = method(ck, ty, "Pricer", "price")
    def want(me):
        xs = F_(me, "instruments")
        it = fld(idx(xs, IX), "1")
        no = none(it, asname)
        r, v = value(me, it)
        bad = mk_any(length(xs), conj(neg(no), neg(isok(r))), IX)
        return ite(bad, ANYERR, Ok(summ(length(xs), ite(no, ZERO, fld(idx(xs, IX), "0") * v), IX)))
    expect(ck, "pricer", inst, p, want, msg="not the weighted sum of all instruments")
    ck.count("composites")


def pricers(ck):
    d = ck.F.adt_path("DateTime")

    def self_value(me, it):
        a = (it, F_(me, "context"), T("vec", (("it", struct(ck, "DateTime", date=F_(me, "context", "context", "spot_date"),
             time_of_day=variant(ck, "TimeOfDay", "Open"))),)))
        return T("call", PR, a), idx(T("mut", PR, 0, a), ZERO)
    weighted(ck, "SelfPricer", "SelfPricer", "price", "as_priceable", self_value)

    def mc_value(me, it):
        r = call("MonteCarloPriceable::mc_price", it, F_(me, "model"))
        return r, okv(r)
    weighted(ck, "MonteCarloPricer", "MonteCarloPricer", "price", "as_mc_priceable", mc_value)


SP = dict(opaque=opq("DependencyContext::spot", "DependencyCollector::new", "PricingContextPrefetch::new", "SelfPricer::new", "MonteCarloPricer::new",
                     "MonteCarloTimeline::new", "MonteCarloTimeline::collate"))


def pricer_new(ck):
    """a pricer keeps every instrument it is given and collects the dependencies of each"""
    acc = T("ix", "acc")

    def deps(xs, md):
        return fold(call("DependencyCollector::new", F_(md, "spot_date")), length(xs), T("mut", "DependencyContext::spot", 0, (acc, fld(idx(xs, IX), "1"))), acc, IX)
    p = inherent(ck, "SelfPricer", "new")

    def want(xs, md):
        bad = mk_any(length(xs), none(fld(idx(xs, IX), "1"), "as_priceable"), IX)
        c = call("PricingContextPrefetch::new", md, deps(xs, md))
        return ite(bad, ANYERR, bind(c, lambda v: Ok(struct(ck, "SelfPricer", instruments=xs, context=v))))
    kw = dict(SP, opaque=opq("DependencyContext::spot", "DependencyCollector::new", "PricingContextPrefetch::new"))
    expect(ck, "pricer", "SelfPricer::new", p, want, msg="an instrument is lost or its dependencies are not collected", **kw)
    p = inherent(ck, "MonteCarloPricer", "new")
    kw = dict(opaque=opq("DependencyContext::spot", "DependencyCollector::new", "PricingContextPrefetch::new", "MonteCarloTimeline::new", "MonteCarloTimeline::collate"))

    def want2(xs, mf, md):
        it = fld(idx(xs, IX), "1")
        no = T("vec", ())
        step = T("mut", "MonteCarloPriceable::mc_dependencies", 0, (it, no, acc))
        tl0 = call("MonteCarloTimeline::new", F_(md, "spot_date"))
        upto = lambda k: fold(tl0, k, subst(step, {IX: T("ix", "inner")}), acc, T("ix", "inner"))
        r = T("call", "MonteCarloPriceable::mc_dependencies", (it, no, upto(IX)))
        bad = mk_any(length(xs), disj(none(it, "as_mc_priceable"), neg(isok(r))), IX)
        tl = upto(length(xs))
        col_ = T("call", "MonteCarloTimeline::collate", (tl,))
        tl2 = T("mut", "MonteCarloTimeline::collate", 0, (tl,))
        c = call("PricingContextPrefetch::new", md, deps(xs, md))
        return ite(bad, ANYERR, bind(col_, lambda _: bind(c, lambda cv: bind(call("MonteCarloModelFactory::factory", mf, tl2, cv),
                   lambda m: Ok(struct(ck, "MonteCarloPricer", model_factory=mf, instruments=xs, model=m))))))
    expect(ck, "pricer", "MonteCarloPricer::new", p, want2, msg="an instrument is lost or its dependencies are not collected", **kw)


def factories(ck):
    """the factories price what the instrument has become, with its weights"""
    for ty, mk, extra in (("SelfPricerFactory", "SelfPricer::new", 0), ("MonteCarloPricerFactory", "MonteCarloPricer::new", 1)):
        p = method(ck, ty, "PricerFactory", "new")

        def want(me, it, fx, md):
            f = call("Instrument::fix", it, fx)
            def g(r):
                xs = ite(isvar(r, OPT, "None"), T("vec", (("it", tup(num(1), it)),)), fld(r, "Some.0"))
                a = (xs, F_(me, "model_factory"), md) if extra else (xs, md)
                return bind(call(mk, *a), Ok)
            return bind(f, g)
        expect(ck, "factory", ty, p, want, msg="not the fixed instrument with its weights", opaque=opq("SelfPricer::new", "MonteCarloPricer::new"))
