"""Simulated valuation.  What each option declares for simulation (observations in order,
flows) is read off the summary of its declaration; the summary of its simulated valuation
must accept exactly that many observations, read them in that order and hand one payoff per
path and flow to the model.  The timeline must keep what is declared in order, and the model
must average each flow over all paths and value it on its own."""
from terms import *
from common import *
import ident
import c25

FLOOR = 8
MD = "MonteCarloDependencies::"


def run(ck):
    tr = ck.F.trait_path("MonteCarloPriceable")
    for im in ck.F.impl_index.get(tr, []):
        t = ck.F.types[im["self"]]
        if t.get("path") in ck.F.adts and "::tests::" not in t["path"]:
            ck.count("simulated types")
            ck.part(option, t["path"])
    ck.part(timeline)
    ck.part(model)
    ck.part(construction)
    ck.part(c25.pricer_new)


def chain(t, cx):
    """declared observations and flows, in order; None when the chain is not understood"""
    obs, fl = [], []
    while t is not cx:
        if t.op != "mut" or t.args[1] != 0:
            return None
        if t.args[0] == MD + "observation":
            obs.insert(0, t.args[2][1:])
        elif t.args[0] == MD + "flow":
            fl.insert(0, t.args[2][1])
        else:
            return None
        t = t.args[2][0]
    return obs, fl


def option(ck, ty):
    nm = short(ty).split("::")[-1]
    spec = SPEC.get(nm)
    d = method(ck, ty, "MonteCarloPriceable", "mc_dependencies")
    s = summ_or_unk(ck, "declared", nm, d, {})
    if s is None:
        return
    me, dates, out = args(s)
    ch = chain(s.E.snap(s.state, s.final(out)), out)
    if ch is None or spec is None:
        ck.unk("declared", nm, ck.where(d), "declarations not understood")
        return
    obs, fl = ch
    want_obs, payoff, want_flows = spec(ck, me)
    w = ck.where(d)
    num_ = lambda xs: T("vec", tuple(("it", tup(*x) if isinstance(x, tuple) else x) for x in xs))
    ck.same("declared", nm + "/observations", w, num_(obs), num_(want_obs), s.cond, "observations declared are not the ones it pays on, in order")
    ck.same("declared", nm + "/flows", w, anon(ck, num_(fl)), anon(ck, num_(want_flows)), s.cond, "flows declared are not what it pays")
    ck.same("declared", nm + "/result", w, s.E.snap(s.state, s.ret), Ok(UNIT), s.cond)
    p = method(ck, ty, "MonteCarloPriceable", "mc_price")
    s = summ_or_unk(ck, "consumed", nm, p, {})
    if s is None:
        return
    me, cx = args(s)
    paths = call("MonteCarloContext::paths", cx, want_obs[0][0])
    arr = okv(paths)
    shape = conj(isok(paths), T2eq(dimn(arr, 1), num(len(obs))))
    # it accepts what the model provides for its own declaration
    ck.same("consumed", nm + "/accepts", ck.where(p), s.cond, TRUE, shape, "refuses paths with the observations it declared")
    j = T("ix", "path")
    row = lambda i: idx(idx(arr, j), num(i))
    q = vecof(mapseg(length(arr), T("vec", (("it", payoff(row)),)), j))
    want = ite(isok(paths), call("MonteCarloContext::evaluate_flows", cx, q), ANYERR)
    got = s.E.snap(s.state, s.ret)
    ck.same("consumed", nm + "/quantities", ck.where(p), got, want, conj(s.cond, disj(neg(isok(paths)), shape)),
            "the quantities paid are not the payoff of the observations declared")


def T2eq(a, b):
    return apply(lambda x, y: TRUE if x is y else lit(T("cmp0", sub(x, y)), "E"), a, b)


def anon(ck, t):
    """ids of the flows are free to choose"""
    m = {}
    for x in subterms(t):
        if x.op == "agg" and x.args[0].startswith("crate::instruments"):
            m[x] = T("agg", x.args[0], x.args[1], tuple((n, v) for n, v in x.args[2] if n != "id"))
    return subst(t, m) if m else t


def pos(x):
    return apply(lambda v: ite(lt(ZERO, v), v, ZERO), x)


def flow(ck, v):
    return struct(ck, "ZeroCoupon", id=T("call", "format", ()), credit_id=fld(v, "credit_id"),
                  currency=call("Instrument::payoff_currency", fld(v, "underlying")), ex_date=fld(v, "expiry"),
                  payment_date=fld(v, "pay_date"), settlement=fld(v, "settlement"))


def spot_starting(ck, me):
    v = fld(me, "vanilla")
    u = fld(v, "underlying")
    call_ = isv(ck, fld(v, "put_or_call"), "PutOrCall", "Call")
    k = fld(me, "strike")
    pay = lambda at: ite(call_, pos(at(0) - k), pos(k - at(0)))
    return [(u, fld(v, "expiry_time"))], pay, [flow(ck, v)]


def forward_starting(ck, me):
    v = fld(me, "vanilla")
    u = fld(v, "underlying")
    call_ = isv(ck, fld(v, "put_or_call"), "PutOrCall", "Call")
    k = lambda at: at(0) * fld(me, "strike_fraction")
    pay = lambda at: ite(call_, pos(at(1) - k(at)), pos(k(at) - at(1)))
    return [(u, fld(me, "strike_time")), (u, fld(v, "expiry_time"))], pay, [flow(ck, v)]


SPEC = {"SpotStartingEuropean": spot_starting, "ForwardStartingEuropean": forward_starting}


def timeline(ck):
    m = lambda n: method(ck, "MonteCarloTimeline", "MonteCarloDependencies", n)

    def obs(me, it, d):
        old = F_(me, "observations")
        return {"observations": put(old, it, ite(has(old, it), T("vec", (("seg", at(old, it)), ("it", d))), T("vec", (("it", d),))))}
    effect(ck, "timeline", "observation", m("observation"), "MonteCarloTimeline", obs)
    effect(ck, "timeline", "flow", m("flow"), "MonteCarloTimeline",
           lambda me, it: {"flows": T("vec", (("seg", F_(me, "flows")), ("it", it)))})
    expect(ck, "timeline", "new", inherent(ck, "MonteCarloTimeline", "new"),
           lambda d: struct(ck, "MonteCarloTimeline", _spot_date=d, observations=T("map0"), flows=T("vec", ()), collated=FALSE))
    for f in ("observations", "flows"):
        expect(ck, "timeline", "read " + f, inherent(ck, "MonteCarloTimeline", f), lambda me: F_(me, f))
    s = summ_or_unk(ck, "timeline", "collate", inherent(ck, "MonteCarloTimeline", "collate"), {})
    if s is not None:
        me = args(s)[0]
        for f in ("flows", "observations"):
            ck.same("timeline", "collate/" + f, "", fld(s.final(me), f), F_(me, f), s.cond, "%s declared are lost or reordered" % f)


def model(ck):
    m = lambda n: method(ck, "BlackDiffusion", "MonteCarloContext", n)
    expect(ck, "model", "paths", m("paths"),
           lambda me, it: ite(has(F_(me, "key"), ID(it)), Ok(col(F_(me, "paths"), 2, at(F_(me, "key"), ID(it)))), ANYERR))

    p = m("evaluate_flows")
    s = summ_or_unk(ck, "model", "evaluate_flows", p, {})
    if s is None:
        return
    me, q = args(s)
    fl, cx = F_(me, "flows"), F_(me, "context")
    k, j = T("ix", "flow"), T("ix", "path")
    it = idx(fl, k)
    d = struct(ck, "DateTime", date=call("PricingContext::spot_date", cx), time_of_day=variant(ck, "TimeOfDay", "Open"))
    a = (it, cx, T("vec", (("it", d),)))
    n = length(fl)
    shape = conj(T2eq(length(q), length(F_(me, "paths"))), T2eq(dimn(q, 1), n))
    ck.same("model", "evaluate_flows/accepts", ck.where(p), s.cond, TRUE, shape, "refuses one quantity per path and flow")
    # each flow's quantity is averaged over all paths and multiplied by the flow's own value
    bad = mk_any(n, disj(neg(boolify(call("Instrument::is_pure_rates", it))), disj(isvar(call("Instrument::as_priceable", it), OPT, "None"),
                 neg(isok(T("call", "Priceable::prices", a))))), k)
    npath = length(q)
    want = ite(bad, ANYERR, Ok(summ(n, summ(npath, idx(idx(q, j), k), j) * idx(T("mut", "Priceable::prices", 0, a), ZERO), k) / npath))
    ck.same("model", "evaluate_flows/value", ck.where(p), s.E.snap(s.state, s.ret), want, conj(s.cond, shape),
            "not the average over all paths of the value of all flows")


def construction(ck):
    """the model keeps the declared flows in order and simulates the declared observations of every asset"""
    p = inherent(ck, "BlackDiffusion", "new")
    fns = ("blackdiffusion::calculate_substepping", "blackdiffusion::fetch_correlated_gaussians", "blackdiffusion::fetch_paths")
    s = summ_or_unk(ck, "model", "new", p, dict(opaque=opq(*fns)))
    if s is None:
        return
    tl, cx, cs, ps, n = args(s)
    got = s.E.snap(s.state, s.ret)
    ok = okv(got)
    c = conj(s.cond, isok(got))
    ck.same("model", "new/flows", ck.where(p), fld(ok, "flows"), F_(tl, "flows"), c, "flows declared are lost or reordered")
    ck.same("model", "new/context", ck.where(p), fld(ok, "context"), cx, c, "simulates in another context")
    obs = F_(tl, "observations")
    ins = fld(ok, "instruments")
    ck.same("model", "new/assets", ck.where(p), length(ins), length(obs), c, "an observed asset is lost")
    # the key leads from an asset's id to its place in the list
    i = T("ix", "asset")
    want = putall(T("map0"), length(obs), i, ID(T("mkey", obs, i)), i)
    ck.same("model", "new/key", ck.where(p), fld(ok, "key"), want, c, "an asset's paths are filed under another id")
    ck.same("model", "new/instruments", ck.where(p), ins, vecof(mapseg(length(obs), T("mkey", obs, i), i)), c, "an asset's paths are filed under another id")
    g = call(fns[1], cx, ins, cs, fld(ok, "substepping"), n)
    ck.same("model", "new/gaussians", ck.where(p), fld(ok, "correlated_gaussians"), okv(g), c)
    ck.same("model", "new/paths", ck.where(p), fld(ok, "paths"),
            okv(call(fns[2], fld(ok, "observations"), fld(ok, "correlated_gaussians"), cx, ins, fld(ok, "substepping"), n)), c, "paths are not those of the declared observations")
