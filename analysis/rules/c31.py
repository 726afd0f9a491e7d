"""Comparing reports.  What a comparison writes is reduced to whether it writes anything, whatever the
number of lines and reports; that must be exactly when the two sides differ."""
import ident
from terms import *
from common import *

FLOOR = 3
IX = T("ix", "line")
WRITE = ("Formatter::write_fmt", "Formatter::write_str")
SAME = "ApproxEq::validate"
SUB = "ApproxEqReport::validate_report"
OPQ = opq(*(WRITE + (SUB,)))
differ = lambda a, b, tol: call("differ", a, b, tol)


def contract(name, j, a):
    """the output is whether anything was written"""
    if name in WRITE:
        return Ok(UNIT) if j is None else TRUE if j == 0 else None
    if name == SUB:
        return Ok(UNIT) if j is None else disj(a[4], boolify(differ(a[0], a[1], a[2]))) if j == 0 else None
    return None


def run(ck):
    ck.part(figures)
    ck.part(lines)
    ck.part(nested)
    ck.part(kinds)
    ck.part(whole)


def compare(ck, ty):
    """comparison of two values of a type"""
    r = [p for p in ck.F.bodies if p.endswith("::validate") and "ApproxEq<" in p and ty in p]
    return r[0] if len(r) == 1 else None


def off(a, b, tol):
    d = a - b
    return neg(conj(lt(d, tol), lt(ZERO - d, tol)))


def written(ck, inst, p, want, cond=None, msg=None, rule="report", opaque=OPQ, contract=contract, also=()):
    s = summ_or_unk(ck, rule, inst, p, {})
    if s is None:
        return
    a = args(s)
    if len(a) != 5:
        return ck.unk(rule, inst, ck.where(p), "another signature")
    s = ck.summary(p, args=a[:4] + [P("diffs")], opaque=opaque, contract=contract)
    if s is None:
        return ck.unk(rule, inst, ck.where(p), "not summarised")
    d = P("diffs")
    out = s.final(d)
    c = conj(s.cond, cond(*a)) if cond else s.cond
    # nothing written before
    out, c = (subst(x, {d: FALSE}) for x in (out, c))
    # other ways to say the same of finite maps
    for w in also:
        if ident.identical(out, w(*a[:3]), c, 160, ck.seed)[0] == "eq":
            return ck.ok(rule, inst, ck.where(p))
    ck.same(rule, inst, ck.where(p), out, want(*a[:3]), c, msg)


def figures(ck):
    for ty, fs in (("deltagamma::DeltaGamma ", ("delta", "gamma")), ("vegavolga::VegaVolga ", ("vega", "volga"))):
        n = ty.strip().split("::")[-1]
        written(ck, n, compare(ck, ty), lambda a, b, t: disj(*[off(fld(a, f), fld(b, f), fld(t, f)) for f in fs]),
                msg="a figure outside tolerance is not reported, or one inside is", rule="figures")


def lines(ck):
    """every line of either side, by its id"""
    for ty, fs, risk in (("deltagamma::DeltaGammaReport ", ("delta", "gamma"), "unit_risk"), ("vegavolga::VegaVolgaReport ", ("vega", "volga"), "currency_risk")):
        n = ty.strip().split("::")[-1]

        def found(a, b, t, x, y):
            """a line of x that is not in y, or differs there"""
            k, v, tol, h = T("mkey", x, IX), T("mval", x, IX), fld(t, risk), fld(a, "bumpsize")
            w = at(y, k)
            d = disj(off(fld(v, fs[0]), fld(w, fs[0]), tol / h), off(fld(v, fs[1]), fld(w, fs[1]), tol / h / h))
            return mk_any(length(x), ite(has(y, k), d, TRUE), IX)

        def form(size, there, here, back):
            def want(a, b, t):
                x, y = fld(a, "results"), fld(b, "results")
                r = found(a, b, t, x, y) if here else found(a, b, t, y, x)
                if size:
                    r = disj(neg(eq(length(x), length(y))), r)
                for u, w in ([(y, x)] if there else []) + ([(x, y)] if back else []):
                    r = disj(mk_any(length(u), neg(has(w, T("mkey", u, IX))), IX), r)
                return r
            return want
        also = [form(False, True, True, False), form(True, True, True, False), form(True, False, False, False), form(False, False, False, True), form(True, False, False, True)]
        written(ck, n, compare(ck, ty), form(True, False, True, False), msg="a line that is missing or different is not reported", rule="lines", also=also)


def each(a, b, t):
    n = length(a)
    return disj(neg(eq(n, length(b))), mk_any(n, boolify(differ(idx(a, IX), idx(b, IX), t)), IX))


def nested(ck):
    """figures and subreports of a report made after a date move"""
    def want(a, b, t):
        f = [off(fld(a, x), fld(b, x), fld(t, "price")) for x in ("price", "theta")]
        return disj(disj(*f), each(fld(a, "subreports"), fld(b, "subreports"), t))
    written(ck, "TimeBumpedReport", compare(ck, "TimeBumpedReport "), want, msg="a figure or subreport that differs is not reported", rule="nested")


def kinds(ck):
    """a report of another kind differs; one of the same kind is compared with it"""
    t = ck.F.trait_path("ApproxEqReport")
    same = lambda name, j, a: contract(SUB if name == SAME else name, j, a)
    for im in ck.F.impl_index.get(t, []):
        ty = ck.F.types[im["self"]]
        p = dict(im["items"]).get("validate_report")
        if ty.get("path") is None or p not in ck.F.bodies:
            continue
        written(ck, ty["path"].split("::")[-1], p,
                lambda a, b, tol: ite(boolify(T("isa", b, ty["path"])), boolify(differ(a, b, tol)), TRUE),
                msg="a report of another kind is not reported as different", rule="kind", opaque=opq(SAME, *WRITE), contract=same)


def whole(ck):
    p = compare(ck, "for &'v [")
    written(ck, "list of reports", p, each, msg="a report that differs or is missing is not reported", rule="list")
    # nothing to report is success, anything else a failure that the caller sees
    expect(ck, "list", "verdict", ([b for b in ck.F.bodies if b.endswith("facade::assert_approx_eq_reports")] or [None])[0],
           lambda *a: ite(eq(length(call("format")), ZERO), Ok(UNIT), ANYERR), msg="differences are not returned as an error")
    c = [b for b in ck.F.bodies if b.endswith("facade::assert_approx_eq_reports::{closure#0}")]
    s = summ_or_unk(ck, "list", "compared", c[0] if c else None, dict(opaque=opq(SAME)))
    if s is not None:
        x = s.ret
        a = x.args[1] if x.op == "call" and x.args[0] == SAME else ()
        if len(a) != 5:
            return ck.unk("list", "compared", ck.where(c[0]), "another shape")
        (ck.ok if a[0] is not a[1] else ck.bad)("list", "compared", ck.where(c[0]), *([] if a[0] is not a[1] else ["a result is compared with itself"]))
    expect(ck, "list", "tolerances", inherent(ck, "ReportTolerances", "new"),
           lambda x, y, z: struct(ck, "ReportTolerances", price=x, currency_risk=y, unit_risk=z), msg="a tolerance is stored as another")
    # the tolerances the caller gives are the ones compared with
    p = ([b for b in ck.F.bodies if b.endswith("facade::assert_approx_eq_reports")] or [None])[0]
    seen = []

    def trace(E, c, key, path, args, site):
        for a in args:
            for x in subterms(E.snap(c.st, a)):
                if x.op == "agg" and str(x.args[0]).endswith("::ReportTolerances") and x not in seen:
                    seen.append(x)
    s = summ_or_unk(ck, "list", "tolerances used", p, dict(tracer=trace))
    if s is not None:
        a = args(s)
        if len(seen) != 1 or len(a) != 5:
            return ck.unk("list", "tolerances used", ck.where(p), "not found")
        ck.same("list", "tolerances used", ck.where(p), seen[0], struct(ck, "ReportTolerances", price=a[2], currency_risk=a[3], unit_risk=a[4]), TRUE,
                "a tolerance is used as another")
