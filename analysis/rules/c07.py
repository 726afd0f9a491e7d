"""Save and restore.  For every kind of bump and every layer (market data, prefetching
context, diffusion model) the bump is summarised on an empty save area, the resulting
state and save area are handed to the restore of the same layer, and every field of the
state after restoring must equal the field before the bump.  Given a save area that already
holds other items, the bump must add the overwritten items to it.  Clearing must leave every
collection of a save area empty, and a save area of another type is an error."""
from terms import *
from common import *

FLOOR = 20
KINDS = ("Spot", "Divs", "Borrow", "Vol", "Yield")
LAYERS = (("MarketData", "SavedData"), ("PricingContextPrefetch", "SavedPrefetch"), ("BlackDiffusion", "SavedBlackDiffusion"))
OPQ = opq("Bumper::apply", "PricingContext::forward_curve", "PricingContext::vol_surface", "MarketData::bump_spot_date",
          "blackdiffusion::fetch_path", "fetch_path")


def run(ck):
    for layer in LAYERS:
        for k in KINDS:
            ck.part(roundtrip, layer[0], k)
            if (layer[0], k) != ("BlackDiffusion", "Yield"):        # several items in one bump: covered by the round trip
                ck.part(records, layer[0], k)
        ck.part(clears, layer[1])
        ck.part(mismatch, layer[0])
    for p, inner in (("SelfPricer", "context"), ("MonteCarloPricer", "model")):
        ck.part(delegates, p, inner)


def bump_term(ck, kind):
    return T("agg", ck.F.adt_path("Bump"), kind, ((kind + ".0", P("id")), (kind + ".1", P("how"))))


def new_save(ck, ty):
    """the save area a layer creates for itself: what its new_saveable boxes"""
    s = ck.summary(method(ck, ty, "Bumpable", "new_saveable"))
    return s.ret if s is not None and s.cond is TRUE else None


def roundtrip(ck, ty, kind):
    pb, pr = method(ck, ty, "Bumpable", "bump"), method(ck, ty, "Bumpable", "restore")
    sp = new_save(ck, ty)
    name = "%s/%s" % (ty, kind)
    if not (pb and pr and sp is not None):
        return ck.unk("restores", name)
    w = ck.where(pr)
    s = ck.summary(pb, args=[None, bump_term(ck, kind), Some(sp)], opaque=OPQ)
    if s is None:
        return ck.unk("restores", name, ck.where(pb), "bump not summarised")
    me = args(s)[0]
    after, saved = s.final(me), s.final(sp)
    good = conj(s.cond, isvar(s.ret, RES, "Ok"))
    if kind == "Yield" and ty == "PricingContextPrefetch":
        good = conj(good, distinct(ck, T("fld", me, "dependencies"), P("id")))
    r = ck.summary(pr, args=[after, saved], opaque=OPQ)
    if r is None:
        return ck.unk("restores", name, w, "restore not summarised")
    # a nested layer behind a trait object: its restore, given the save area its own bump filled, undoes that bump
    nested, given = {}, TRUE
    for x in subterms(T("tuple", r.final(after), r.ret)):
        if x.op == "mut" and x.args[:2] == ("Bumpable::restore", 0) and len(x.args[2]) == 2:
            b0, b1 = x.args[2]
            if b0.op == b1.op == "mut" and b0.args[:2] == ("Bumpable::bump", 0) and b1.args[:2] == ("Bumpable::bump", 1) and b0.args[2] == b1.args[2]:
                nested[x] = b0.args[2][0]
                given = conj(given, isvar(T("call", "Bumpable::restore", (b0, b1)), RES, "Ok"))
    good = conj(good, given)
    if kind == "Yield" and ty == "BlackDiffusion":
        good = conj(good, own_slots(me, r.final(after)))
    back = subst(r.final(after), nested)
    ck.same("restore-succeeds", name, w, isvar(r.ret, RES, "Ok"), TRUE, conj(good, r.cond), "restoring what a bump saved fails")
    for f in ck.F.adts[ck.F.adt_path(ty)]["variants"][0]["fields"]:
        n = f["n"]
        want = T("fld", me, n)
        ck.same("restores", "%s/%s" % (name, n), w, fld(back, n), want, conj(good, r.cond),
                "after a %s bump, restore does not give %s back" % (kind, n))
    ck.count("bump/restore pairs")


COLL = {"Spot": "spots", "Divs": "dividends", "Borrow": "borrow_curves", "Vol": "vol_surfaces", "Yield": "yield_curves"}


def used(t, name="saved"):
    """a save area of the same shape that may already hold anything"""
    if t.op == "map0":
        return P(name)
    if t.op == "agg":
        return T("agg", t.args[0], t.args[1], tuple((f, used(x, name + "." + f)) for f, x in t.args[2]))
    return t


def records(ck, ty, kind):
    """whatever a save area already holds, the items a bump overwrites are added to it"""
    p, sp = method(ck, ty, "Bumpable", "bump"), new_save(ck, ty)
    name = "%s/%s" % (ty, kind)
    if not p or sp is None or sp.op != "agg":
        return ck.unk("records", name)
    sv = used(sp)
    s = summ_or_unk(ck, "records", name, p, dict(args=[None, bump_term(ck, kind), Some(sv)], opaque=OPQ))
    if s is None:
        return
    me, id = args(s)[0], P("id")
    after = s.final(sv)
    good = conj(s.cond, isok(s.ret))
    one, many = {}, {}                      # collections in which one item, or one item per forward, is replaced
    if ty == "BlackDiffusion":
        a = (F_(me, "context"), bump_term(ck, kind), Some(fld(sv, "saved_data")))
        bumped = boolify(okv(T("call", "Bumpable::bump", a)))
        ck.same("records", name + "/saved_data", ck.where(p), fld(after, "saved_data"), T("mut", "Bumpable::bump", 1, a), good,
                "the layer below does not save into its own area")
        slot = lambda k: at(F_(me, "key"), k)
        one[("paths",)] = (slot, lambda k: col(F_(me, "paths"), 2, slot(k)))
    else:
        md = me if ty == "MarketData" else F_(me, "context")
        bumped = has(F_(md, COLL[kind]), id)
        one[(() if md is me else ("saved_data",)) + (COLL[kind],)] = (lambda k: k, lambda k: at(F_(md, COLL[kind]), k))
        if md is not me:
            fc, vs = F_(me, "forward_curves"), F_(me, "vol_surfaces")
            if kind == "Vol":
                one[("vol_surfaces",)] = (lambda k: k, lambda k: at(vs, k))
                good = conj(good, disj(neg(bumped), has(vs, id)))
            else:
                (many if kind == "Yield" else one)[("forward_curves",)] = (lambda k: k, lambda k: at(fc, k))
    for c in collections(sv):
        got, old = after, sv
        for f in c:
            got, old = fld(got, f), fld(old, f)
        cond, want = good, old
        if c in one:
            k, v = one[c]
            cond = conj(cond, neg(has(old, k(id))))
            want = ite(bumped, put(old, k(id), v(id)), old)
        elif c in many:
            k, v = many[c]
            m, i = F_(me, "dependencies", "forward_id_from_credit_id"), T("ix", "fid")
            l = at(m, id)
            x = idx(l, i)
            cond = conj(conj(cond, has(m, id)), neg(mk_any(length(l), has(old, k(x)), i)))
            cond = conj(cond, distinct(ck, F_(me, "dependencies"), id))
            want = ite(bumped, putall(old, length(l), i, k(x), v(x)), old)
        ck.same("records", "%s/%s" % (name, ".".join(c)), ck.where(p), got, want, cond,
                "a %s bump does not add what it overwrites to a save area already in use" % kind)


def collections(t, path=()):
    if t.op != "agg":
        return [path] if t.op not in ("call", "mut") else []
    return [c for f, x in t.args[2] for c in collections(x, path + (f,))]


def clears(ck, ty):
    p = method(ck, ty, "Saveable", "clear")
    a = ck.F.adt_path(ty)
    if not p or not a:
        return ck.unk("clears", ty)
    s = ck.summary(p)
    if s is None:
        return ck.unk("clears", ty, ck.where(p), "not summarised")
    me = args(s)[0]
    empties(ck, p, ty, s.final(me), a, me)


def empties(ck, p, name, after, adt, before):
    """every collection of a save area, at any depth, is empty"""
    for f in ck.F.adts[adt]["variants"][0]["fields"]:
        t = ck.F.types[f["t"]]
        got = fld(after, f["n"])
        inst = "%s/%s" % (name, f["n"])
        if (t.get("path") or "").startswith("crate::"):
            empties(ck, p, inst, got, t["path"], fld(before, f["n"]))
        elif (t.get("path") or "").endswith("::HashMap"):
            ck.same("clears", inst, ck.where(p), got, T("map0"), TRUE, "clear leaves saved entries behind in %s" % inst)
        else:
            ck.same("clears", inst, ck.where(p), got, T("mut", "Saveable::clear", 0, (fld(before, f["n"]),)), TRUE,
                    "clear leaves the nested save area %s as it was" % inst)


def mismatch(ck, ty):
    """a save area of another type is refused, changing nothing"""
    for m, n in (("restore", 1), ("bump", 2)):
        p = method(ck, ty, "Bumpable", m)
        if not p:
            ck.unk("mismatch", "%s/%s" % (ty, m))
            continue
        s = ck.summary(p, opaque=OPQ)
        if s is None:
            ck.unk("mismatch", "%s/%s" % (ty, m), ck.where(p), "not summarised")
            continue
        a = args(s)
        sv = a[n] if m == "restore" else fld(a[n], "Some.0")
        own = new_save(ck, ty)
        if own is None or own.op != "agg":
            ck.unk("mismatch", "%s/%s" % (ty, m), ck.where(p))
            continue
        c = neg(boolify(T("isa", sv, own.args[0])))
        if m == "bump":
            c = conj(c, isvar(a[n], OPT, "Some"))
        ck.same("mismatch", "%s/%s" % (ty, m), ck.where(p), isvar(s.ret, RES, "Err"), TRUE, c,
                "%s accepts a save area made for something else" % m)
        ck.same("mismatch-untouched", "%s/%s" % (ty, m), ck.where(p), s.final(a[0]), a[0], c,
                "%s refuses a save area but has already changed the state" % m)


def delegates(ck, ty, inner):
    """a pricer hands bump, restore and the creation of save areas to the layer below"""
    o = lambda name, path: name.startswith("Bumpable::")
    for m in ("bump", "restore", "new_saveable"):
        p = method(ck, ty, "Bumpable", m)
        s = ck.summary(p, opaque=o) if p else None
        inst = "%s/%s" % (ty, m)
        if s is None:
            ck.unk("delegates", inst)
            continue
        a = args(s)
        x = [T("fld", a[0], inner)] + a[1:]
        ck.same("delegates", inst, ck.where(p), s.ret, T("call", "Bumpable::" + m, tuple(x)), TRUE,
                "%s is not what the layer below returns" % m)
        if m != "new_saveable":
            after = s.final(a[0])
            for f in ck.F.adts[ck.F.adt_path(ty)]["variants"][0]["fields"]:
                n = f["n"]
                want = T("mut", "Bumpable::" + m, 0, tuple(x)) if n == inner else T("fld", a[0], n)
                ck.same("delegates", "%s/%s" % (inst, n), ck.where(p), fld(after, n), want, TRUE,
                        "%s leaves the pricer's %s wrong" % (m, n))


def own_slots(me, t):
    """the assets named for one credit entity each have their own slot"""
    out = TRUE
    ls = set(x for x in subterms(t) if x.op == "at" and x.args[1] is P("id"))
    ls |= set(x.args[1].args[0] for x in subterms(t) if x.op == "at" and x.args[1].op == "idx" and not bvlevel(x.args[1].args[0]))
    for l in sorted(ls, key=show):
        i, j = T("ix", "di"), T("ix", "dj")
        k = lambda q: at(T("fld", me, "key"), idx(l, q))
        out = conj(out, neg(mk_any(length(l), mk_any(i, eq(k(i), k(j)), j), i)))
    return out


def distinct(ck, deps, id):
    """the forward ids recorded for one credit entity are pairwise different"""
    p = inherent(ck, "DependencyCollector", "forward_id_by_credit_id")
    s = ck.summary(p, args=[deps, id]) if p else None
    if s is None:
        return TRUE
    out = TRUE
    for l in leaves(s.ret):
        if l.op == "ref":
            l = s.E.read(s.state, l)
        i, j = T("ix", "di"), T("ix", "dj")
        out = conj(out, neg(mk_any(T("len", l), mk_any(i, eq(T("idx", l, i), T("idx", l, j)), j), i)))
    return out
