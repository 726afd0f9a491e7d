"""Declared dependencies.  For every priceable instrument type the requests its valuation,
fixing and simulated flows make of the market are collected with the condition under which
each is made, and every request must be covered by the chain of declarations the same
instrument makes: same id, a date at least as late."""
from terms import *
from common import *
import ident
import c25

FLOOR = 6
DEP, MUTD, PR = "DependencyContext::", "Instrument::dependencies", "Priceable::prices"
OP = dict(opaque=opq("FixingTable::get"))


def run(ck):
    tr = ck.F.trait_path("Priceable")
    n = 0
    for im in ck.F.impl_index.get(tr, []):
        t = ck.F.types[im["self"]]
        if t.get("path") not in ck.F.adts or "::tests::" in t["path"]:
            continue
        n += 1
        ck.part(one, t["path"])
    ck.count("priceable types", n)
    ck.part(c25.basket_dependencies)
    ck.part(c25.pricer_new)


def spotdate(t):
    """both contexts are built for the same date"""
    m = {}
    for x in subterms(t):
        if x.op == "call" and x.args[0] == DEP + "spot_date":
            m[x] = call("PricingContext::spot_date", P("context"))
    return subst(t, m) if m else t


def one(ck, ty):
    nm = short(ty).split("::")[-1]
    d = method(ck, ty, "Instrument", "dependencies")
    sd = summ_or_unk(ck, "declared", nm, d, OP)
    if sd is None:
        return
    me, cx = args(sd)
    decl = spotdate(sd.E.snap(sd.state, sd.final(cx)))
    need = spotdate(sd.E.snap(sd.state, sd.ret))
    E = ck.engine()
    C = Cover(ck, E, cx, decl, need, me)
    p = method(ck, ty, "Priceable", "prices")
    s = summ_or_unk(ck, "declared", nm + "/prices", p, OP)
    if s is not None:
        a = args(s)
        requests(ck, C, nm, "prices", s, a[0], a[2])
    f = method(ck, ty, "Instrument", "fix")
    if f:
        s = summ_or_unk(ck, "declared", nm + "/fix", f, OP)
        if s is not None:
            requests(ck, C, nm, "fix", s, args(s)[0], None)
    f = method(ck, ty, "MonteCarloPriceable", "mc_dependencies")
    if f:
        s = summ_or_unk(ck, "declared", nm + "/flows", f, OP)
        if s is not None:
            flows(ck, C, nm, s)


def requests(ck, C, nm, fn, s, me, dates):
    seen = set()
    for cond, name, snaps, ret, span, path in s.E.events:
        todo = [(name, snaps)]
        for x in snaps:
            if x.op == "lam":
                todo += [(y.args[0], y.args[1]) for y in subterms(x) if y.op == "call" and y.args[0].startswith("PricingContext::")]
        for n, a in todo:
            r = C.request(n, a, me, dates)
            if r is None:
                continue
            what, cov = r
            inst = "%s/%s %s" % (nm, fn, what)
            if inst in seen:
                continue
            seen.add(inst)
            ck.count("requests")
            c = conj(cond, TRUE)
            got, _ = ident.holds(cov, c, 160, ck.seed) if cov is not TRUE else ("eq", 0)
            if got == "eq":
                ck.ok("declared", inst, span)
            elif got == "unk":
                ck.unk("declared", inst, span, "not modelled")
            else:
                ck.bad("declared", inst, span, "%s asks for %s, which its declared dependencies do not cover" % (nm, what))


def flows(ck, C, nm, s):
    for cond, name, snaps, ret, span, path in s.E.events:
        if name != "MonteCarloDependencies::flow":
            continue
        it = snaps[1]
        if it.op != "agg" or not it.args[0].startswith("crate::"):
            ck.unk("declared", nm + "/flow", span, "flow of unknown type")
            continue
        g = method(ck, it.args[0], "Instrument", "dependencies")
        ss = ck.summary(g, args=[it, P("flowcx")]) if g else None
        if ss is None:
            ck.unk("declared", nm + "/flow", span, "flow of unknown type")
            continue
        for c2, n2, a2, r2, sp2, p2 in ss.E.events:
            if n2 == DEP + "yield_curve":
                cov = C.yield_(spotdate(a2[1]), spotdate(a2[2]))
                inst = "%s/flow %s" % (nm, what("yield_curve", a2[1:]))
                got, _ = ident.holds(cov, conj(cond, c2), 160, ck.seed) if cov is not TRUE else ("eq", 0)
                ck.count("requests")
                if got == "eq":
                    ck.ok("declared", inst, span)
                elif got == "unk":
                    ck.unk("declared", inst, span, "not modelled")
                else:
                    ck.bad("declared", inst, span, "%s declares a flow whose curve its dependencies do not cover" % nm)


def what(n, a):
    import re
    return re.sub(r"\bix\(\d+\)", "i", re.sub(r"\bbv\(\d+\)", "i", "%s(%s)" % (n, ", ".join(show(x, 6) for x in a))))


def root(x):
    while x.op in ("fld", "idx"):
        x = x.args[0]
    return x


def ge(a, b):
    return apply(notless, a, b)


def notless(x, y):
    d = sub(x, y)
    if d.op == "num":
        return TRUE if d.args[0] >= 0 else FALSE
    return neg(lt(x, y))


class Cover(object):
    """condition under which a chain of declarations covers a request"""

    def __init__(self, ck, E, cx, decl, need, me):
        self.ck, self.E, self.cx, self.decl, self.need, self.me = ck, E, cx, decl, need, me

    def eq(self, a, b):
        return apply(lambda x, y: TRUE if x is y else self.E.compare("Eq", x, y), a, b)

    def walk(self, f, t=None):
        t = self.decl if t is None else t

        def g(l):
            if l is self.cx or l.op == "acc" or l.op == "ix":
                return FALSE
            if l.op == "mut" and l.args[0].startswith(DEP) and l.args[1] == 0:
                return disj(f(l.args[0][len(DEP):], l.args[2][1:]), self.walk(f, l.args[2][0]))
            if l.op == "mut" and l.args[0] == MUTD:
                return disj(f("dependencies", l.args[2]), self.walk(f, l.args[2][1]))
            if l.op == "fold":
                init, n, lv, body = l.args
                ix = T("ix", ("c", lv))
                b = self.walk(f, subst(body, {T("bv", lv): ix, T("acc", lv): T("ix", ("acc", lv))}))
                return disj(self.walk(f, init), mk_any(n, b, ix))
            return boolify(T("unk", ("declaration", l.id)))
        return apply(g, t)

    def yield_(self, id, d):
        return self.walk(lambda k, a: conj(self.eq(a[0], id), ge(a[1], d)) if k == "yield_curve" else
                         conj(self.eq(call("Instrument::credit_id", a[0]), id), ge(a[1], d)) if k == "forward_curve" else FALSE)

    def forward(self, it, d):
        return self.walk(lambda k, a: conj(self.eq(a[0], it), ge(a[1], d)) if k == "forward_curve" else FALSE)

    def vol(self, it, d):
        return self.walk(lambda k, a: conj(self.eq(a[0], it), ge(a[1], d)) if k == "vol_surface" else FALSE)

    def spot(self, id):
        return self.walk(lambda k, a: self.eq(ID(a[0]), id) if k in ("spot", "forward_curve") else FALSE)

    def fixing(self, id, d):
        return self.walk(lambda k, a: conj(self.eq(a[0], id), self.eq(a[1], d)) if k == "fixing" else FALSE)

    def request(self, n, a, me, dates):
        """(description, covering condition) of a request; None for anything else"""
        if n == "PricingContext::yield_curve":
            if a[1].op == "call" and a[1].args[0] == "Instrument::credit_id" and root(a[1].args[1][0]) is me:
                return "yield_curve of the credit entity of an instrument it holds", self.yield_(a[1], a[2])
            return what("yield_curve", a[1:]), self.yield_(a[1], a[2])
        if n == "PricingContext::forward_curve":
            if a[1] is me:
                return None     # an asset's own forward is declared by whoever holds it
            return what("forward_curve", a[1:]), self.forward(a[1], a[2])
        if n == "PricingContext::vol_surface":
            if a[1] is me:
                return None
            return what("vol_surface", a[1:3]), self.vol(a[1], a[2])
        if n == "PricingContext::spot":
            own = fld(me, "id")
            if a[1] is own or a[1] is ID(me):
                return what("spot", a[1:]), neg(isv(self.ck, self.need, "SpotRequirement", "NotRequired"))
            return what("spot", a[1:]), self.spot(a[1])
        if n == "FixingTable::get":
            return what("fixing", a[1:]), self.fixing(a[1], a[2])
        if n == "Instrument::fix":
            return what("fixings of", a[:1]), self.walk(lambda k, b: self.eq(b[0], a[0]) if k in ("dependencies", "spot") else FALSE)
        if n == PR and a[0] is not me:
            it, cx, ds = a
            if ds is dates:
                cov = self.walk(lambda k, b: self.eq(b[0], it) if k in ("dependencies", "spot") else FALSE)
                # an instrument that needs its spot relies on whoever holds it to declare that
                need = self.walk(lambda k, b: self.eq(b[0], it) if k in ("spot", "forward_curve") else
                                 conj(self.eq(b[0], it), isv(self.ck, call(MUTD, *b), "SpotRequirement", "NotRequired")) if k == "dependencies" else FALSE)
                return what("value of", (it,)), conj(cov, need)
            if ds.op == "vec" and ds.args[0] and ds.args[0][-1][0] == "it":
                last = fld(ds.args[0][-1][1], "date")
                return what("value of", (it, ds.args[0][-1][1])), self.forward(it, last)
            return what("value of", (it,)), boolify(T("unk", ("dates", ds.id)))
        return None
