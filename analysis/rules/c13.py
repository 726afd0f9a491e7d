"""Fixing.  The summary of fixing a weighted list (of any length, whatever each component
becomes) and of each instrument kind's own fixing is compared with the required
replacement: nothing lost, weights multiplied, other terms kept."""
from terms import *
from common import *
from optspec import *
import c25
import c35

FLOOR = 3
IX = T("ix", "comp")


def run(ck):
    ck.part(fix_list)
    ck.part(c25.basket_fix)
    ck.part(c35.fixed_spot)
    ck.part(c35.fixed_forward)
    ck.part(leaves)
    ck.part(c25.factories)


def fix_list(ck):
    """each component that changed becomes all of its replacements, the others stay"""
    p = ([b for b in ck.F.bodies if b.split("::")[-1] == "fix_all"] or [None])[0]

    def want(xs, tb):
        w, it = fld(idx(xs, IX), "0"), fld(idx(xs, IX), "1")
        r = call("Instrument::fix", it, tb)
        o = okv(r)
        repl = fld(o, "Some.0")
        j = T("ix", "part")
        many = vecof(mapseg(length(repl), tup(w * fld(idx(repl, j), "0"), fld(idx(repl, j), "1")), j))
        body = ite(isvar(o, OPT, "None"), T("flat", items(tup(w, it))), T("flat", many))
        n = length(xs)
        new = vecof(mapseg(n, body, IX))
        return ite(mk_any(n, neg(isok(r)), IX), ANYERR, ite(mk_any(n, isvar(o, OPT, "Some"), IX), Ok(Some(new)), Ok(NONE)))
    expect(ck, "list", "fix_all", p, want, msg="a component is lost or its weight is wrong")


def leaves(ck):
    """an instrument that observes nothing never changes"""
    for nm in ("Currency", "CreditEntity", "Equity", "ZeroCoupon"):
        p = method(ck, nm, "Instrument", "fix")
        s = summ_or_unk(ck, "leaf", nm, p, {})
        if s is not None:
            ck.same("leaf", nm, ck.where(p), s.ret, Ok(NONE), s.cond, "fixing changes an instrument that observes nothing")
