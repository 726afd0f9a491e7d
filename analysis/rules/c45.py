"""Forwards and dividends.  The forward, its reference spot and the look-ups of accumulated dividends are
value-numbered.  The loop that accumulates dividends is summarised as one round over any state: what the
round makes of the state, when it stops and with what outcome, and what is made of the last state, for
any dividend and any curves."""
import itertools
from terms import *
from common import *
import ident

FLOOR = 6
SEARCH = "slice::binary_search_by"
RT = "RateCurve::rt"
DB = "DividendBootstrap"
DA = "DividendAccumulation"


def run(ck):
    ck.part(stream)
    ck.part(discounting)
    ck.part(forward)
    ck.part(lookups)
    ck.part(sums)
    ck.part(bootstrap)


def rt(c, d):
    return call(RT, c, d)


def log_df(rate, borrow, d, f):
    """f of the log of the discount with borrow"""
    return bind(rt(rate, d), lambda r: bind(rt(borrow, d), lambda q: f(q - r)))


def exp(x):
    return call("exp", x)


def good(l):
    """the outcome is a success"""
    return FALSE if l.op == "anyerr" else TRUE if l.op == "agg" and l.args[1] == "Ok" else FALSE if l.op == "agg" and l.args[1] == "Err" else BOT if l is BOT else isvar(l, RES, "Ok")


def stream(ck):
    def want(divs, y):
        ix = P("#dividend")
        d = idx(divs, ix)
        lv, b = close(ite(eq(F_(d, "cash"), ZERO), P("#last"), F_(d, "ex_date")), ix)
        return struct(ck, "DividendStream", dividends=divs, div_yield=y,
                      last_cash_ex_date=T("fold", ZERO, length(divs), lv, subst(b, {P("#last"): T("acc", lv)})))
    expect(ck, "stream", "new", inherent(ck, "DividendStream", "new"), want, msg="not the dividends given, or not the last cash ex date")
    expect(ck, "stream", "dividend", inherent(ck, "Dividend", "new"), lambda c, r, x, p: struct(ck, "Dividend", cash=c, relative=r, ex_date=x, pay_date=p), msg="not the dividend given")
    for f in ("cash", "relative", "ex_date", "pay_date"):
        expect(ck, "stream", f, inherent(ck, "Dividend", f), lambda me, f=f: F_(me, f), msg="another field")
    for f in ("dividends", "div_yield", "last_cash_ex_date"):
        expect(ck, "stream", f, inherent(ck, "DividendStream", f), lambda me, f=f: F_(me, f), msg="another field")


def free(ck, name):
    return ([b for b in ck.F.bodies if b.endswith("::forward::" + name)] or [None])[0]


def discounting(ck):
    expect(ck, "discounting", "log", free(ck, "log_discount_with_borrow"), lambda r, q, d: log_df(r, q, d, Ok), msg="not the borrow less the rate")
    expect(ck, "discounting", "factor", free(ck, "discount_with_borrow"), lambda r, q, b, d: log_df(r, q, d, lambda x: Ok(exp(x - b))), msg="not the discount from the base")


def forward(ck):
    SUM, AFTER = DB + "::discounted_sum_from_base", DB + "::discounted_cash_divs_after"
    EF = "EquityForward"

    def fwd(me, d):
        pay = call("DateRule::apply", F_(me, "settlement"), d)
        return bind(call(SUM, F_(me, "bootstrap"), d), lambda divs: log_df(F_(me, "rate"), F_(me, "borrow"), pay, lambda x: bind(rt(F_(me, "div_yield"), pay), lambda y: Ok(
            (F_(me, "reference_spot") - divs) * exp(F_(me, "base_log_discount") + y - x)))))
    p = method(ck, EF, "Forward", "forward")
    s = summ_or_unk(ck, "forward", EF, p, dict(opaque=opq(SUM)))
    if s is not None:
        # the order in which failures are met does not matter
        r = fwd(*args(s))
        fine = lambda x: apply(good, x)
        ck.same("forward", EF, ck.where(p), s.ret, r, conj(s.cond, fine(r)), "not the spot less dividends, grown at the carry to its payment")
        ck.same("forward", EF + "/failures", ck.where(p), fine(s.ret), fine(r), s.cond, "a failure of a curve or of the dividends is not a failure of the forward")
    expect(ck, "forward", EF + "/cash", method(ck, EF, "Forward", "fixed_divs_after"), lambda me, d: call(AFTER, F_(me, "bootstrap"), d), opaque=opq(AFTER), msg="not the cash dividends after")

    def new(base, spot, settle, rate, borrow, divs, hwm):
        def with_(x):
            return log_df(rate, borrow, call("DateRule::apply", settle, base), lambda y: made(x, spot * exp(y - x)))

        def made(x, ref):
            b = call(DB + "::new", divs, rate, borrow, ref, base, hwm)
            return bind(b, lambda v: Ok(struct(ck, EF, settlement=settle, rate=rate, borrow=borrow, div_yield=F_(divs, "div_yield"), bootstrap=v, reference_spot=ref, base_log_discount=x)))
        return log_df(rate, borrow, base, with_)
    expect(ck, "forward", EF + "::new", inherent(ck, EF, "new"), new, opaque=opq(DB + "::new"), msg="not the screen price discounted from its own payment date")
    for ty, f in (("DriftlessForward", lambda me, d: Ok(F_(me, "value"))), ("InterpolatedForward", lambda me, d: call("Interpolate::interpolate", F_(me, "interp"), d))):
        expect(ck, "forward", ty, method(ck, ty, "Forward", "forward"), f, opaque=opq("Interpolate::interpolate"), msg="not the value it holds")
    t = ck.F.trait_path("Forward")
    expect(ck, "forward", "default cash", method(ck, "DriftlessForward", "Forward", "fixed_divs_after"), lambda me, d: Ok(ZERO), msg="dividends where there are none")


def lookups(ck):
    for m, f, want in (("undiscounted_sum_from_base", "undiscounted_sum", "so far"), ("discounted_sum_from_base", "discounted_sum", "so far"),
                       ("discounted_cash_divs_after", "discounted_cash_remaining", "remaining")):
        p = inherent(ck, DB, m)
        s = summ_or_unk(ck, "look-up", m, p, {})
        if s is None:
            continue
        w = ck.where(p)
        me, d = args(s)
        acc = F_(me, "accumulation")
        find = sorted(set(x for x in subterms(s.ret) if x.op == "call" and x.args[0] == SEARCH and x.args[1][0] is acc), key=show)
        if len(find) != 1 or find[0].args[1][1].op != "lam":
            ck.unk("look-up", m, w, "the ex date is not looked up by one bisection")
            continue
        b = find[0]
        o = lambda v: T("agg", "std::cmp::Ordering", v, ())
        ck.same("look-up", m + "/order", w, b.args[1][1].args[1], apply(lambda u, v: ite(lt(u, v), o("Less"), ite(lt(v, u), o("Greater"), o("Equal"))),
                fld(P("lam1.0"), "ex_date"), d), msg="not searched by ex date")
        i, j, n = okv(b), fld(b, "Err.0"), length(acc)
        at_ = lambda k: Ok(F_(idx(acc, k), f))
        first = eq(j, ZERO)
        if want == "so far":
            v = ite(isok(b), at_(i), ite(first, Ok(ZERO), at_(j - ONE)))
        else:
            v = ite(isok(b), at_(i), ite(eq(n, ZERO), Ok(ZERO), ite(first, at_(ZERO), at_(j - ONE))))
        sound = ite(isok(b), conj(neg(lt(i, ZERO)), lt(i, n)), conj(disj(first, neg(lt(j, ONE))), lt(j, n + ONE)))
        v = ite(lt(F_(me, "high_water_mark"), d), ANYERR, v)
        ck.same("look-up", m, w, s.ret, v, conj(s.cond, sound), "not the dividends %s at that date" % want)


def sums(ck):
    for m in ("undiscounted_sum", "discounted_sum"):
        n = "%s::%s_from_base" % (DB, m)
        p = inherent(ck, DB, m)
        s = summ_or_unk(ck, "period", m, p, dict(opaque=opq(n)))
        if s is None:
            continue
        me, a, b = args(s)
        x, y = call(n, me, a), call(n, me, b)
        both = conj(isok(x), isok(y))
        ck.same("period", m, ck.where(p), s.ret, ite(both, Ok(okv(y) - okv(x)), ANYERR), s.cond, "not the dividends from one date to the other")


def bootstrap(ck):
    rule, inst = "bootstrap", "new"
    p = inherent(ck, DB, "new")
    s = summ_or_unk(ck, rule, inst, p, dict(joint=1))
    if s is not None and not s.E.open:
        s = summ_or_unk(ck, rule, inst, p, dict(joint=3))
    if s is None:
        return
    w = ck.where(p)
    ds, rate, borrow, spot, base, hwm = args(s)
    divs, y = F_(ds, "dividends"), F_(ds, "div_yield")
    n = length(divs)
    lids = set(m.args[0] for (k, m, i, nx, lc) in s.E.open.values())
    if len(lids) != 1:
        return ck.unk(rule, inst, w, "not one loop over the dividends")
    lid = lids.pop()
    ix = T("ix", lid)
    d = idx(divs, ix)
    ex, cash, rel, pay = (F_(d, f) for f in ("ex_date", "cash", "relative", "pay_date"))
    to = ite(lt(hwm, F_(ds, "last_cash_ex_date")), F_(ds, "last_cash_ex_date"), hwm)
    log = lambda x: okv(rt(borrow, x)) - okv(rt(rate, x))
    fails = lambda x: disj(neg(isok(rt(rate, x))), neg(isok(rt(borrow, x))))
    st = [(m, init, nx, lc) for (k, m, init, nx, lc) in s.E.open.values()]
    lc = st[0][3]
    dates = [x for x in st if x[1] is base]
    lists = [x for x in st if x[1].op == "vec"]
    zeros = [x for x in st if x[1] is ZERO]
    if len(dates) != 1 or len(lists) != 1 or len(zeros) != 4 or len(st) != 6:
        return shape(ck, rule, w, s, args(s), lid, st)
    D, A = dates[0][0], lists[0][0]
    df = exp(log(pay) - log(base))
    counted = lt(base, ex)
    fresh = lt(D, ex)
    fwd = lambda before: (spot - before) * exp(log(base) - log(ex))
    item = lambda U, S, C: struct(ck, DA, ex_date=D, undiscounted_sum=U, discounted_sum=S, discounted_cash=C, discounted_cash_remaining=T("fconst", "NaN"))
    if item(ZERO, ZERO, ZERO) is None:
        return ck.unk(rule, inst, w, "accumulations have other fields")

    def nexts(U, S, C, S0):
        before = ite(fresh, S, S0)
        amount = ite(eq(rel, ZERO), ZERO, rel * fwd(before))
        upd = lambda new, old: ite(counted, new, old)
        pushed = T("vec", (("seg", A), ("it", item(U, S, C))))
        return [(U, upd(U + cash + amount, U)), (S, upd(S + cash * df + amount * df, S)), (C, upd(C + cash * df, C)), (S0, upd(before, S0)),
                (D, upd(ex, D)), (A, upd(ite(fresh, pushed, A), A))]
    # the curves answer at the base date, the dividends so far are in order
    hyp = conj(conj(neg(fails(base)), neg(lt(D, base))), s.cond if not any(x.op in ("mu", "ix") for x in subterms(s.cond)) else TRUE)
    c = conj(lc, hyp)
    after = dict((m, nx) for m, _, nx, _ in st)
    known = set(m for m in after)
    rename = dict((m, P("state %d" % k)) for k, m in enumerate(sorted(known, key=lambda m: m.id)))
    best = None
    for perm in itertools.permutations([z[0] for z in zeros]):
        wrong = []
        for k, (m, want) in enumerate(nexts(*perm)):
            r = ident.identical(subst(after[m], rename), subst(want, rename), subst(c, rename), 60, ck.seed)[0]
            if r != "eq":
                wrong.append((("undiscounted sum", "discounted sum", "discounted cash", "sum before the ex date", "ex date", "list")[k], m, want, r))
            if best is not None and len(wrong) >= len(best[1]):
                break
        if best is None or len(wrong) < len(best[1]):
            best = (perm, wrong)
        if not wrong:
            break
    perm, wrong = best
    if len(wrong) > 1:
        return shape(ck, rule, w, s, args(s), lid, st)
    for nm, m, want, r in wrong:
        if r == "unk":
            ck.unk(rule, nm, w, "not modelled")
        else:
            ck.same(rule, nm, w, subst(after[m], rename), subst(want, rename), subst(c, rename), "one round does not keep the " + nm)
    for _ in range(6 - len(wrong)):
        ck.count("loop variables")
    if not wrong:
        ck.ok(rule, "round", w)
    U, S, C, S0 = perm
    # when a round leaves the loop
    anys = [x for x in subterms(s.ret) if x.op == "any" and any(z in known for z in subterms(x.args[2]))]
    wits = [x for x in subterms(s.ret) if x.op == "wit" and any(z in known for z in subterms(x.args[2]))]
    if len(anys) != 1 or len(wits) > 1:
        return ck.unk(rule, "leaving", w, "not one decision to leave the loop")
    late, order = lt(to, ex), lt(ex, D)
    trouble = disj(fails(pay), conj(neg(eq(rel, ZERO)), fails(ex)))
    leave = conj(counted, disj(disj(order, late), trouble))
    body = subst(anys[0].args[2], {T("bv", anys[0].args[1]): ix})
    R = lambda t: subst(t, rename)
    ck.same(rule, "leaving", w, R(body), R(leave), R(conj(hyp, lt(ix, n))), "dividends are left out, or not refused")
    # what is made of the last state
    got = restrict(s.ret, conj(s.cond, conj(lt(ZERO, n), neg(fails(base)))))
    done = restrict(got, lit(anys[0], False))
    quit_ = restrict(got, lit(anys[0], True))
    if wits:
        quit_ = subst(quit_, {wits[0]: ix})
    overlap = conj(neg(boolify(call("RateCurve::is_zero", y))), lt(call("RateCurve::base_date", y), F_(idx(divs, n - ONE), "ex_date")))
    for nm, r, cond, bad in (("at the end", done, TRUE, FALSE), ("stopping", quit_, leave, disj(order, conj(neg(late), trouble)))):
        outcome = apply(good, r)
        h = R(conj(conj(hyp, cond), lt(ZERO, n)))
        ck.same(rule, nm + "/outcome", w, R(outcome), R(neg(disj(overlap, bad))), h, "an error is a result or a result an error")
        h = conj(h, R(neg(disj(overlap, bad))))
        v = apply(lambda l: okv(l) if l.op == "agg" and l.args[1] == "Ok" else BOT, r)
        for f, want in (("base_date", base), ("high_water_mark", to)):
            ck.same(rule, "%s/%s" % (nm, f), w, R(apply(lambda l: BOT if l is BOT else fld(l, f), v)), R(want), h, "not the dates bootstrapped")
        got_ = apply(lambda l: BOT if l is BOT else fld(l, "accumulation"), v)
        for size in (0, 1, 2):
            # the list so far has entries e0, e1
            es = [P("entry %d" % q) for q in range(size)]
            sub = dict(rename)
            sub[A] = T("vec", tuple(("it", x) for x in es))
            for grown in (False, True):
                xs = es + ([item(U, S, C)] if grown else [])
                c2 = subst(conj(conj(hyp, cond), conj(lt(ZERO, n), neg(disj(overlap, bad)))), sub)
                c2 = conj(c2, subst(lt(base, D) if grown else neg(lt(base, D)), sub))
                total = fld(xs[-1], "discounted_cash") if xs else ZERO
                F = [f for f, _ in fields_of(ck, DA)]
                want = T("vec", tuple(("it", struct(ck, DA, **dict((f, fld(x, f) if f != "discounted_cash_remaining" else total - fld(x, "discounted_cash")) for f in F))) for x in xs))
                ck.same(rule, "%s/entries %d%s" % (nm, size, "+1" if grown else ""), w, subst(got_, sub), subst(want, sub), c2, "not the dividends accumulated and those remaining")


def fields_of(ck, ty):
    it = struct(ck, ty, ex_date=ZERO, undiscounted_sum=ZERO, discounted_sum=ZERO, discounted_cash=ZERO, discounted_cash_remaining=ZERO)
    return it.args[2]


def shape(ck, rule, w, s, a, lid, st):
    """the loop keeps some other state: the first rounds, composed, must still accumulate the same; a
    difference is one of the property, agreement of so few rounds proves nothing"""
    ds, rate, borrow, spot, base, hwm = a
    divs, y = F_(ds, "dividends"), F_(ds, "div_yield")
    n, ix = length(divs), T("ix", lid)
    to = ite(lt(hwm, F_(ds, "last_cash_ex_date")), F_(ds, "last_cash_ex_date"), hwm)
    log = lambda x: okv(rt(borrow, x)) - okv(rt(rate, x))
    fails = lambda x: disj(neg(isok(rt(rate, x))), neg(isok(rt(borrow, x))))
    known = set(m for m, _, _, _ in st)
    anys = [x for x in subterms(s.ret) if x.op == "any" and any(z in known for z in subterms(x.args[2]))]
    if len(anys) != 1:
        return ck.unk(rule, "new", w, "the loop keeps another state")
    body = subst(anys[0].args[2], {T("bv", anys[0].args[1]): ix})
    overlap = conj(neg(boolify(call("RateCurve::is_zero", y))), lt(call("RateCurve::base_date", y), F_(idx(divs, n - ONE), "ex_date")))
    hyp = conj(conj(neg(fails(base)), neg(overlap)), lt(base, hwm))
    made = restrict(restrict(s.ret, conj(lt(ZERO, n), hyp)), lit(anys[0], False))
    made = apply(lambda l: fld(okv(l), "accumulation") if l.op == "agg" and l.args[1] == "Ok" else BOT, made)
    for pattern in (("new",), ("before", "new"), ("on", "new"), ("new", "same"), ("new", "new"), ("new", "same", "new"), ("new", "late"), ("new", "disorder")):
        now = dict((m, i) for m, i, _, _ in st)
        D, U, S, C, S0, A = base, ZERO, ZERO, ZERO, ZERO, ()
        c = hyp
        for k, what in enumerate(pattern):
            sub = dict(now)
            sub[ix] = num(k)
            d = idx(divs, num(k))
            ex, cash, rel, pay = (F_(d, f) for f in ("ex_date", "cash", "relative", "pay_date"))
            c = conj(c, neg(disj(fails(pay), conj(neg(eq(rel, ZERO)), fails(ex)))))
            c = conj(c, {"new": lt(D, ex), "same": eq(D, ex), "before": lt(ex, base), "on": eq(ex, base), "late": lt(to, ex), "disorder": conj(lt(base, ex), lt(ex, D))}[what])
            out = what in ("late", "disorder")
            if not out:
                c = conj(c, neg(lt(to, ex)))
            if ident.identical(subst(body, sub), TRUE if out else FALSE, c, 100, ck.seed)[0] == "diff":
                return ck.bad(rule, " ".join(pattern[:k + 1]), w, "the last of these dividends %s" % ("is counted" if out else "stops the others from being counted"))
            if out:
                break
            now = dict((m, subst(nx, sub)) for m, _, nx, _ in st)
            if what in ("new", "same"):
                if what == "new":
                    A, S0 = A + (dict(ex_date=D, undiscounted_sum=U, discounted_sum=S, discounted_cash=C),), S
                df = exp(log(pay) - log(base))
                amount = ite(eq(rel, ZERO), ZERO, rel * (spot - S0) * exp(log(base) - log(ex)))
                D, U, S, C = ex, U + cash + amount, S + cash * df + amount * df, C + cash * df
        else:
            full = A + (dict(ex_date=D, undiscounted_sum=U, discounted_sum=S, discounted_cash=C),)
            want = T("vec", tuple(("it", struct(ck, DA, discounted_cash_remaining=C - x["discounted_cash"], **x)) for x in full))
            got = subst(subst(made, {n: num(len(pattern))}), now)
            if ident.identical(got, want, c, 100, ck.seed)[0] == "diff":
                return ck.bad(rule, " ".join(pattern), w, "these first dividends are not accumulated")
    ck.unk(rule, "new", w, "the loop keeps another state")
