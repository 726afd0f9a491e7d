"""Calculations.  What a calculation returns is value-numbered for any list of reports asked for, and
compared with: the pricer made from what is given, priced once, and each report made by its own
generator, in order, from that pricer and that price."""
from terms import *
from common import *
import c25
import reports

FLOOR = 4
IX = T("ix", "report")


def run(ck):
    ck.part(whole)
    ck.part(c25.factories)
    ck.part(c25.pricer_new)
    ck.part(c25.pricers)


def whole(ck):
    p = ([b for b in ck.F.bodies if b.endswith("facade::calculate")] or [None])[0]
    s = summ_or_unk(ck, "calculation", "calculate", p, dict(contract=reports.contract))
    if s is None:
        return
    pf, it, fx, md, gens = args(s)
    n = length(gens)

    def done(pr):
        def priced(v):
            g = call(reports.GEN, idx(gens, IX), pr, call("Bumpable::new_saveable", pr), v)
            return ite(mk_any(n, neg(isok(g)), IX), ANYERR, Ok(vecof(mapseg(n, okv(g), IX))))
        return bind(call("Pricer::price", pr), priced)
    want = bind(call("PricerFactory::new", pf, it, fx, md), done)
    ck.same("calculation", "calculate", ck.where(p), s.E.snap(s.state, s.ret), want, s.cond, "not one report for each asked for, of the pricer and its price")
