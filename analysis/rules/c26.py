"""Dependency collector.  Each method that records a request is summarised; every field of
the collector afterwards must be the required update of the same field before: the later of
the recorded and the requested date, lists extended, nothing else touched.  The look-ups
must return what is stored under the id asked for."""
from terms import *
from common import *

FLOOR = 20
TY = "DependencyCollector"
PURE = lambda name: name.startswith("Instrument::dependencies")
KW = dict(opaque=opq("Instrument::dependencies", "InstanceId::id", "Instrument::credit_id"), pure=PURE)
ID = lambda x: call("InstanceId::id", x)


def hwm(m, k, d):
    """the later date wins"""
    return ite(has(m, k), ite(lt(at(m, k), d), put(m, k, d), m), put(m, k, d))


def needed(ck, me, ins):
    """the instrument itself says whether its spot is needed"""
    return neg(isv(ck, call("Instrument::dependencies", ins, P("any")), "SpotRequirement", "NotRequired"))


def run(ck):
    ck.part(records)
    ck.part(lookups)


def F_(me, n):
    return T("fld", me, n)


def records(ck):
    m = lambda n: method(ck, TY, "DependencyContext", n)
    p = inherent(ck, TY, "new")
    s = summ_or_unk(ck, "starts-empty", "new", p, {})
    if s is not None:
        for f in fields(ck, TY):
            e = [x.op for x in leaves(fld(s.ret, f))]
            want = args(s)[0] if f == "spot_date" else T("map0") if e == ["map0"] else T("vec", ())
            ck.same("starts-empty", f, ck.where(p), fld(s.ret, f), want, TRUE, "a new collector does not start empty")
    effect(ck, "records", "yield_curve", m("yield_curve"), TY,
           lambda me, id, d: {"yield_curves": hwm(F_(me, "yield_curves"), id, d)}, **KW)
    effect(ck, "records", "vol_surface", m("vol_surface"), TY,
           lambda me, x, d: {"vol_surfaces": hwm(F_(me, "vol_surfaces"), x, d), "instruments": put(F_(me, "instruments"), ID(x), x)}, **KW)
    effect(ck, "records", "fixing", m("fixing"), TY,
           lambda me, id, d: {"fixings": put(F_(me, "fixings"), id,
                                             ite(has(F_(me, "fixings"), id), T("vec", (("seg", at(F_(me, "fixings"), id)), ("it", d))), T("vec", (("it", d),))))}, **KW)
    # the requirement the instrument reports, however the collector was passed to it
    for n in ("spot", "forward_curve"):
        p = m(n)
        s = summ_or_unk(ck, "records", n, p, KW)
        if s is None:
            continue
        a = args(s)
        me, x = a[0], a[1]
        reqs = set(t for t in subterms(T("tuple", s.final(me), *[e[3] for e in s.E.events])) if t.op == "call" and t.args[0] == "Instrument::dependencies")
        good = [t for t in reqs if t.args[1][0] is x]
        if len(good) != 1 or len(reqs) != 1:
            ck.require(bool(good), "visits", n, ck.where(p), "the instrument's own dependencies are not collected")
            continue
        ck.ok("visits", n, ck.where(p))
        need = neg(isv(ck, good[0], "SpotRequirement", "NotRequired"))
        want = {"spots": ite(need, put(F_(me, "spots"), x, tup()), F_(me, "spots")),
                "instruments": ite(need, put(F_(me, "instruments"), ID(x), x), F_(me, "instruments"))}
        # adding to a set what it already holds changes nothing
        want["spots"] = ite(has(F_(me, "spots"), x), F_(me, "spots"), want["spots"])
        if n == "forward_curve":
            cid = call("Instrument::credit_id", x)
            want["forward_curves"] = hwm(F_(me, "forward_curves"), x, a[2])
            want["yield_curves"] = hwm(F_(me, "yield_curves"), cid, a[2])
            mp = F_(me, "forward_id_from_credit_id")
            l, i = at(mp, cid), T("ix", "seen")
            seen = mk_any(length(l), eq(idx(l, i), ID(x)), i)
            want["forward_id_from_credit_id"] = ite(has(mp, cid), ite(seen, mp, put(mp, cid, T("vec", (("seg", l), ("it", ID(x)))))),
                                                    put(mp, cid, T("vec", (("it", ID(x)),))))
        after = s.final(me)
        for f in fields(ck, TY):
            ck.same("records", "%s/%s" % (n, f), ck.where(p), fld(after, f), want.get(f, F_(me, f)), s.cond, "%s is left wrong" % f)


def lookups(ck):
    i = lambda n: inherent(ck, TY, n)
    look = lambda f: lambda me, k: opt(has(F_(me, f), k), at(F_(me, f), k))
    expect(ck, "look-up", "has_spot", i("has_spot"), lambda me, k: has(F_(me, "spots"), k))
    for n, f in (("yield_curve_hwm", "yield_curves"), ("forward_curve_hwm", "forward_curves"), ("vol_surface_hwm", "vol_surfaces"), ("instrument_by_id", "instruments")):
        expect(ck, "look-up", n, i(n), look(f))
    for n, f, e in (("forward_id_by_credit_id", "forward_id_from_credit_id", "empty"), ("fixings", "fixings", "empty_fixings")):
        expect(ck, "look-up", n, i(n), lambda me, k: ite(has(F_(me, f), k), at(F_(me, f), k), F_(me, e)))
    for n in ("forward_curves", "vol_surfaces"):
        expect(ck, "look-up", n, i(n), lambda me: F_(me, n))
    expect(ck, "look-up", "spot_date", method(ck, TY, "DependencyContext", "spot_date"), lambda me: F_(me, "spot_date"))
    for n, mk in (("instruments_clone", "mkey"),):
        ix = T("ix", "k")
        s = expect(ck, "look-up", n, i(n), lambda me: vecof(mapseg(length(F_(me, "instruments")), T("mkey", F_(me, "instruments"), ix), ix)))
