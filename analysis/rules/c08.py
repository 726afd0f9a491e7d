"""Cached data follows its inputs.  The bump of each caching layer is summarised per kind
of bump; wherever it succeeds, each cached item of a bumped id must be the item rebuilt
from the market data as it is after the bump, and nothing else may change.  A date move
rebuilds every declared item."""
from terms import *
from common import *

FLOOR = 12
COLL = {"Spot": "spots", "Divs": "dividends", "Borrow": "borrow_curves", "Vol": "vol_surfaces", "Yield": "yield_curves"}
OPQ = opq("Bumper::apply", "PricingContext::forward_curve", "PricingContext::vol_surface", "MarketData::bump_spot_date",
          "blackdiffusion::fetch_path", "fetch_path", "InstanceId::id")


def run(ck):
    for k in COLL:
        ck.part(prefetch, k, "")
        ck.part(prefetch, k, "/saving")
    ck.part(prefetch_date)
    ck.part(prefetch_new)
    for k in COLL:
        ck.part(diffusion, k, "")
        ck.part(diffusion, k, "/saving")
    ck.part(diffusion_date)
    ck.part(dynamics)


def bump_term(ck, kind):
    return variant(ck, "Bump", kind, P("id"), P("how"))


def fcall(ctx, inst, d):
    return call("PricingContext::forward_curve", ctx, inst, d)


def vcall(ctx, inst, d, fwd):
    return call("PricingContext::vol_surface", ctx, inst, d, T("lam", 0, Ok(fwd)))


def save_area(ck, ty, how):
    if not how:
        return NONE
    s = ck.summary(method(ck, ty, "Bumpable", "new_saveable"))
    return Some(s.ret)


def prefetch(ck, kind, how):
    p = method(ck, "PricingContextPrefetch", "Bumpable", "bump")
    s = summ_or_unk(ck, "rebuilt", "prefetch/" + kind + how, p,
                    dict(args=[None, bump_term(ck, kind), save_area(ck, "PricingContextPrefetch", how)], opaque=OPQ))
    if s is None:
        return
    me = args(s)[0]
    w, after, id = ck.where(p), s.final(me), P("id")
    ctx, deps = fld(after, "context"), F_(me, "dependencies")
    good = conj(s.cond, isok(s.ret))
    bumped = has(F_(me, "context", COLL[kind]), id)
    fc, vs = F_(me, "forward_curves"), F_(me, "vol_surfaces")
    kind_, kind = kind, kind + how
    inst = at(F_(deps, "instruments"), id)
    wantf, wantv = fc, vs
    if kind_ in ("Spot", "Divs", "Borrow"):
        wantf = ite(bumped, put(fc, id, okv(fcall(ctx, inst, at(F_(deps, "forward_curves"), inst)))), fc)
    elif kind_ == "Vol":
        wantv = ite(conj(bumped, has(vs, id)), put(vs, id, okv(vcall(ctx, inst, at(F_(deps, "vol_surfaces"), inst), at(fc, id)))), vs)
    else:
        l, i = at(F_(deps, "forward_id_from_credit_id"), id), T("ix", "fid")
        k = idx(l, i)
        x = at(F_(deps, "instruments"), k)
        all_ = putall(fc, length(l), i, k, okv(fcall(ctx, x, at(F_(deps, "forward_curves"), x))))
        # an unknown credit entity has no forwards; the collector's empty list stays empty
        good = conj(good, conj(has(F_(deps, "forward_id_from_credit_id"), id), TRUE))
        wantf = ite(bumped, all_, fc)
    ck.same("rebuilt", "prefetch/%s/forward_curves" % kind, w, fld(after, "forward_curves"), wantf, good,
            "cached forwards do not follow a %s bump" % kind)
    ck.same("rebuilt", "prefetch/%s/vol_surfaces" % kind, w, fld(after, "vol_surfaces"), wantv, good,
            "cached surfaces do not follow a %s bump" % kind)
    ck.same("rebuilt", "prefetch/%s/dependencies" % kind, w, fld(after, "dependencies"), deps, good)
    # an id whose market datum was changed but which cannot be refetched is an error, not a stale cache
    if kind_ in ("Spot", "Divs", "Borrow", "Vol"):
        ck.same("stale", "prefetch/%s" % kind, w, isok(s.ret), FALSE, conj(bumped, neg(has(F_(deps, "instruments"), id))),
                "a %s bump of an item that cannot be refetched succeeds" % kind)
    ck.count("kinds of bump per layer")


def everything(ctx, deps):
    i = T("ix", "all")
    fd, vd = F_(deps, "forward_curves"), F_(deps, "vol_surfaces")
    inst, hwm = T("mkey", fd, i), T("mval", fd, i)
    fwd = okv(fcall(ctx, inst, hwm))
    vol = okv(vcall(ctx, inst, at(vd, inst), fwd))
    return (putall(T("map0"), length(fd), i, ID(inst), fwd),
            putall(T("map0"), length(fd), i, ID(inst), vol, has(vd, inst)))


def prefetch_date(ck):
    p = method(ck, "PricingContextPrefetch", "Bumpable", "bump")
    s = summ_or_unk(ck, "rebuilt", "prefetch/SpotDate", p, dict(args=[None, variant(ck, "Bump", "SpotDate", P("how")), NONE], opaque=OPQ))
    if s is None:
        return
    me = args(s)[0]
    w, after = ck.where(p), s.final(me)
    deps, ctx0 = F_(me, "dependencies"), F_(me, "context")
    moved = neg(eq(F_(P("how"), "spot_date"), F_(ctx0, "spot_date")))
    a = (ctx0, P("how"), deps)
    ctx = T("mut", "MarketData::bump_spot_date", 0, a)
    good = conj(s.cond, isok(s.ret))
    f, v = everything(ctx, deps)
    for n, want in (("context", ctx), ("forward_curves", f), ("vol_surfaces", v)):
        ck.same("rebuilt", "prefetch/SpotDate/" + n, w, fld(after, n), ite(moved, want, F_(me, n)), good,
                "%s does not follow a date move" % n)
    ck.same("reports", "prefetch/SpotDate", w, s.ret, ite(moved, Ok(TRUE), Ok(FALSE)), good)
    ck.same("reports", "prefetch/SpotDate/failure", w, isok(s.ret), FALSE, conj(s.cond, conj(moved, neg(isok(T("call", "MarketData::bump_spot_date", a))))),
            "a failed date move is reported as a success")


def prefetch_new(ck):
    p = inherent(ck, "PricingContextPrefetch", "new")
    s = summ_or_unk(ck, "rebuilt", "prefetch/new", p, dict(opaque=OPQ))
    if s is None:
        return
    ctx, deps = args(s)
    f, v = everything(ctx, deps)
    good = conj(s.cond, isok(s.ret))
    for n, want in (("context", ctx), ("dependencies", deps), ("forward_curves", f), ("vol_surfaces", v)):
        ck.same("rebuilt", "prefetch/new/" + n, ck.where(p), fld(okv(s.ret), n), want, good, "%s of a new cache is wrong" % n)


def path_of(me, ctx, a, old):
    """the path of asset number a, simulated on ctx"""
    return T("mut", "blackdiffusion::fetch_path", 0,
             (idx(F_(me, "instruments"), a), ctx, F_(me, "observations"), col(F_(me, "correlated_gaussians"), 2, a),
              F_(me, "substepping"), old))


def diffusion(ck, kind, how):
    p = method(ck, "BlackDiffusion", "Bumpable", "bump")
    sv = save_area(ck, "BlackDiffusion", how)
    s = summ_or_unk(ck, "rebuilt", "diffusion/" + kind + how, p, dict(args=[None, bump_term(ck, kind), sv], opaque=OPQ))
    if s is None:
        return
    me = args(s)[0]
    w, after, id = ck.where(p), s.final(me), P("id")
    a = (F_(me, "context"), bump_term(ck, kind), Some(F_(fld(sv, "Some.0"), "saved_data")) if how else NONE)
    inner, ctx = T("call", "Bumpable::bump", a), T("mut", "Bumpable::bump", 0, a)
    good = conj(s.cond, isok(s.ret))
    ck.same("rebuilt", "diffusion/%s/context" % kind, w, fld(after, "context"), ctx, good, "the market data below the model is not bumped")
    paths = F_(me, "paths")
    bumped = boolify(okv(inner))
    asset = at(F_(me, "key"), id)
    kind_, kind = kind, kind + how
    if kind_ == "Yield":
        deps = set(x for x in subterms(T("tuple", fld(after, "paths"), s.ret)) if x.op == "fld" and x.args[1] == "forward_id_from_credit_id")
        if len(deps) > 1:
            return ck.unk("rebuilt", "diffusion/Yield/paths", w)
        m = deps.pop() if deps else F_(okv(call("Bumpable::dependencies", ctx)), "forward_id_from_credit_id")
        i = T("ix", "fid")
        l = at(m, id)
        k = at(F_(me, "key"), idx(l, i))
        acc = T("acc", 1)
        body = subst(setcol(acc, 2, k, path_of(me, ctx, k, col(acc, 2, k))), {i: T("bv", 1)})
        good = conj(good, has(m, id))
        want = ite(bumped, T("fold", paths, length(l), 1, body), paths)
    else:
        want = ite(bumped, setcol(paths, 2, asset, path_of(me, ctx, asset, col(paths, 2, asset))), paths)
        ck.same("stale", "diffusion/%s" % kind, w, isok(s.ret), FALSE, conj(conj(isok(inner), bumped), neg(has(F_(me, "key"), id))),
                "a bump of an asset without paths succeeds")
    ck.same("rebuilt", "diffusion/%s/paths" % kind, w, fld(after, "paths"), want, good, "simulated paths do not follow a %s bump" % kind)
    for n in fields(ck, "BlackDiffusion"):
        if n not in ("paths", "context"):
            ck.same("rebuilt", "diffusion/%s/%s" % (kind, n), w, fld(after, n), F_(me, n), good)
    ck.count("kinds of bump per layer")


def diffusion_date(ck):
    p = method(ck, "BlackDiffusion", "Bumpable", "bump")
    b = variant(ck, "Bump", "SpotDate", P("how"))
    s = summ_or_unk(ck, "rebuilt", "diffusion/SpotDate", p, dict(args=[None, b, NONE], opaque=OPQ))
    if s is None:
        return
    me = args(s)[0]
    a = (F_(me, "context"), b, NONE)
    inner, ctx = T("call", "Bumpable::bump", a), T("mut", "Bumpable::bump", 0, a)
    w, after = ck.where(p), s.final(me)
    good = conj(s.cond, isok(s.ret))
    ins = F_(me, "instruments")
    zero = T("rep", T("rep", T("rep", ZERO, length(ins)), length(F_(me, "observations"))), dimn(F_(me, "paths"), 0))
    acc, i = T("acc", 1), T("bv", 1)
    # as many paths are simulated as there are gaussians; one column of gaussians per instrument
    good = conj(good, eq(dimn(F_(me, "correlated_gaussians"), 2), length(ins)))
    full = T("fold", zero, length(ins), 1, setcol(acc, 2, i, path_of(me, ctx, i, col(acc, 2, i))))
    ck.same("rebuilt", "diffusion/SpotDate/paths", w, fld(after, "paths"), ite(boolify(okv(inner)), full, F_(me, "paths")), good,
            "simulated paths do not follow a date move")
    ck.same("rebuilt", "diffusion/SpotDate/context", w, fld(after, "context"), ctx, good)


def dynamics(ck):
    """a surface said not to depend on the forward is not changed by it"""
    p, q = inherent(ck, "VolForwardDynamics", "depends_on_forward"), inherent(ck, "VolForwardDynamics", "modify")
    s = summ_or_unk(ck, "declared", "volatility", p, {})
    t = summ_or_unk(ck, "declared", "volatility", q, {})
    if s is None or t is None:
        return
    me, sf, _ = args(t)
    dep = boolify(subst(s.ret, {args(s)[0]: me}))
    ck.same("declared", "volatility", ck.where(p), t.final(sf), sf, conj(t.cond, neg(dep)), "a surface that moves with the forward is said not to depend on it")
