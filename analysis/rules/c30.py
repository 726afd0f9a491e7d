"""Root finding.  The solver's loop is summarised as one round over any state; relations between the
points it tracks and their function values are inferred as inductive invariants, and every success it
returns must follow from them: a zero, or a sign change within the tolerance."""
from terms import *
from common import *
import ident
from fractions import Fraction

FLOOR = 4


def run(ck):
    ck.part(solver)
    ck.part(implied)


def same(u, v):
    return disj(conj(lt(ZERO, u), lt(ZERO, v)), conj(lt(u, ZERO), lt(v, ZERO)))


def ordered(u, v):
    """facts of arithmetic: how u and v, and u and -v, compare when their signs differ"""
    imp = lambda p, q: disj(neg(p), q)
    r = imp(conj(lt(u, ZERO), neg(lt(v, ZERO))), lt(u, v))
    r = conj(r, imp(conj(neg(lt(ZERO, u)), lt(ZERO, v)), lt(u, v)))
    r = conj(r, imp(conj(lt(u, ZERO), neg(lt(ZERO, v))), lt(u + v, ZERO)))
    r = conj(r, imp(conj(lt(ZERO, u), neg(lt(v, ZERO))), lt(ZERO, u + v)))
    return conj(r, imp(conj(eq(u, ZERO), eq(v, ZERO)), conj(eq(u, v), eq(u + v, ZERO))))


def holds(ck, claim, cond):
    """claim is true wherever cond holds"""
    r, _ = ident.identical(conj(cond, claim), cond, TRUE, 400 if ck.tier == "thorough" else 160, ck.seed)
    return r == "eq"


def failing(ck, r, rule, inst, w, msg):
    """r is an error, whichever"""
    ls = leaves(r)
    if not all(l.op == "agg" for l in ls):
        ck.unk(rule, inst, w, "outcome not modelled")
    elif all(l.args[1] == "Err" for l in ls):
        ck.ok(rule, inst, w)
    else:
        ck.bad(rule, inst, w, msg)


def solver(ck):
    p = ([b for b in ck.F.bodies if b.endswith("::brent::zbrent")] or [None])[0]
    s = summ_or_unk(ck, "root", "zbrent", p, {})
    if s is None:
        return
    w = ck.where(p)
    a = args(s)
    x1, x2, tol, most, f = a
    ev = lambda x: T("call", "callval", (f, x)) if T("call", "callval", (f, x1)) in set(subterms(s.ret)) else None
    if ev(x1) is None:
        return ck.unk("root", "zbrent", w, "the function is called in another way")
    val = lambda x: fld(ev(x), "Ok.0")
    fine = conj(isvar(ev(x1), RES, "Ok"), isvar(ev(x2), RES, "Ok"))
    # failures
    for nm, x, c in (("first end", x1, TRUE), ("second end", x2, isvar(ev(x1), RES, "Ok"))):
        r = restrict(s.ret, conj(c, isvar(ev(x), RES, "Err")))
        failing(ck, r, "failure", nm, w, "an error of the function is not relayed")
    r = restrict(s.ret, conj(fine, same(val(x1), val(x2))))
    failing(ck, r, "failure", "not bracketed", w, "ends of one sign are not refused")
    odd = lambda x: apply(lambda y: boolify(T("call", "is_nan", (y,))), x)
    for nm, x, c in (("first end", x1, isvar(ev(x1), RES, "Ok")), ("second end", x2, fine)):
        r = restrict(s.ret, conj(c, odd(val(x))))
        failing(ck, r, "not a number", nm, w, "a value that is not a number is taken for a bracket")
    fine = conj(fine, conj(neg(odd(val(x1))), neg(odd(val(x2)))))
    # the loop
    st = [(m, init, nxt, lc) for (k, m, init, nxt, lc) in s.E.open.values()]
    if not st:
        return ck.unk("root", "zbrent", w, "no loop found")
    lc = st[0][3]
    start = conj(fine, neg(same(val(x1), val(x2))))
    pts = [(m, i, n) for m, i, n, _ in st if i in (x1, x2)]
    vals = [(m, i, n) for m, i, n, _ in st if i in (val(x1), val(x2))]
    # which variable holds the value at which point: the largest set of such pairs that one round preserves
    eqs = set((v[0], x[0]) for v in vals for x in pts if v[1] is val(x[1]))
    after = dict((m, n) for m, i, n in pts + vals)
    while True:
        keep = set()
        for v, x in eqs:
            good = apply(lambda y, z: agree(eqs, val, y, z), after[v], after[x])
            if conj(lc, neg(good)) is FALSE:
                keep.add((v, x))
        if keep == eqs:
            break
        eqs = keep
    # pairs of values that never have one sign
    at_ = dict(eqs)
    opp = set((u, v) for u in at_ for v in at_ if u.id < v.id and holds(ck, neg(same(init_(vals, u), init_(vals, v))), start))
    while True:
        keep = set()
        hyp = TRUE
        for u, v in opp:
            hyp = conj(hyp, neg(same(u, v)))
        for u, v in opp:
            g = conj(lc, hyp)
            r = restrict(apply(same, after[u], after[v]), g)
            if conj(g, r) is FALSE:
                keep.add((u, v))
        if keep == opp:
            break
        opp = keep
    for v in sorted(at_, key=lambda v: v.id):
        n = apply(lambda y: FALSE if y in at_ else odd(y), after[v])
        ck.require(conj(lc, n) is FALSE, "not a number", "loop", w, "the search goes on from a value that is not a number")
    # the limit on the number of rounds
    r = restrict(s.ret, conj(start, neg(lt(ZERO, most))))
    failing(ck, r, "failure", "no rounds", w, "success is reported without a single round")
    # every success
    hyp = start
    for u, v in opp:
        hyp = conj(hyp, neg(same(u, v)))
    for u in at_:
        for v in at_:
            if u is not v:
                hyp = conj(hyp, ordered(u, v))
    ck.count("loop invariants", len(eqs) + len(opp))
    known = dict((x, v) for v, x in eqs)
    eps4 = num(Fraction("2.220446049250313e-16") * 4)
    mag = lambda x: ite(lt(x, ZERO), ZERO - x, x)

    def root(x):
        fx = known[x] if x in known else val(x)
        r = eq(fx, ZERO)
        for y, fy in known.items():
            if y is not x:
                r = disj(r, conj(neg(same(fx, fy)), neg(apply(lt, tol + eps4 * mag(x), mag(x - y)))))
        return r
    claim = lambda l: apply(root, fld(l, "Ok.0")) if l.op == "agg" and l.args[1] == "Ok" else TRUE
    c = conj(s.cond, hyp)
    try:
        bad = conj(c, neg(apply(claim, restrict(s.ret, c))))
    except Blowup:
        bad = None
    if bad is FALSE:
        return ck.ok("success", "zbrent", w)
    # is there a state of the loop that keeps the invariants and yet returns something else
    free = dict((m, P("state %d" % k)) for k, (m, _, _, _) in enumerate(st))
    if bad is not None:
        wrong = ident.identical(subst(bad, free), FALSE, TRUE, 1600, ck.seed)[0] == "diff"
    else:
        back = dict((v, k) for k, v in free.items())
        ret, c = subst(s.ret, free), subst(c, free)
        wrong = sum(1 for k in range(4000) if state(ident.Ev((ck.seed, k)), c, ret, lambda x: subst(root(subst(x, back)), free))) > 1
    if wrong:
        ck.bad("success", "zbrent", w, "a root is reported that was not bracketed within the tolerance")
    else:
        ck.unk("success", "zbrent", w, "does not follow from the invariants found")


def state(e, c, ret, claim):
    """the state drawn satisfies c, and what is returned there breaks the claim"""
    try:
        if e.pick(c, {}) is not TRUE:
            return False
        l = e.pick(ret, {})
        if l.op != "agg" or l.args[1] != "Ok":
            return False
        return e.pick(claim(e.pick(fld(l, "Ok.0"), {})), {}) is FALSE
    except (ident.Undef, ident.Unknown, Blowup):
        return False


def agree(eqs, val, y, z):
    """y is known to be the value at z"""
    if (y, z) in eqs or y is val(z):
        return TRUE
    r = FALSE
    for v, x in eqs:
        if x is z:
            r = disj(r, eq(y, v))
    return r


def init_(vals, m):
    return [i for x, i, n in vals if x is m][0]


def implied(ck):
    """implied volatility relays what the solver finds; the function solved is the price at that volatility less the target"""
    Z = "brent::zbrent"
    p = method(ck, "ImpliedVol", "OneDimensionalSolver", "solve")
    s = summ_or_unk(ck, "implied", "solve", p, dict(opaque=opq(Z)))
    if s is None:
        return
    w = ck.where(p)
    me, pr, target, lo, hi = args(s)
    d = call("Bumpable::dependencies", pr)
    vols = fld(okv(d), "vol_surfaces")
    root = [x for x in subterms(s.ret) if x.op == "call" and x.args[0] == Z]
    if len(root) != 1 or len(root[0].args[1]) != 5:
        return ck.unk("implied", "solve", w, "the solver is used in another way")
    r = root[0]
    ck.same("implied", "solve", w, s.ret, bind(d, lambda _: ite(eq(length(vols), ONE), r, ANYERR)), s.cond, "the outcome of the search is not relayed")
    for nm, got, want in (("lower end", r.args[1][0], lo), ("upper end", r.args[1][1], hi), ("tolerance", r.args[1][2], fld(me, "tolerance")), ("rounds", r.args[1][3], fld(me, "max_iter"))):
        ck.same("implied", nm, w, got, want, s.cond, "another search is made")
    f = r.args[1][4]
    if f.op != "lam":
        return ck.unk("implied", "function", w, "not modelled")
    x = P("lam%s.0" % f.args[0])
    b = variant(ck, "Bump", "Vol", ID(T("mkey", vols, ZERO)), T("agg", ck.F.adt_path("BumpVol"), "Replace", (("Replace.vol", x),)))
    a = (pr, b, NONE)
    price = call("Pricer::price", T("mut", "Bumpable::bump", 0, a))
    ck.same("implied", "function", w, f.args[1], bind(call("Bumpable::bump", *a), lambda _: bind(price, lambda v: Ok(v - target))), TRUE,
            "what is solved is not price less target at the volatility tried")
