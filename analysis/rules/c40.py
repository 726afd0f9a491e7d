"""Put-call parity.  The call and the put formula are summarised on the same symbolic
arguments and their difference is reduced with N(-x) = 1 - N(x); the analytic valuation of
every option kind is summarised once as a call and once as a put."""
from terms import *
from common import *
from optspec import *
import c35

FLOOR = 2
CDF = "Univariate::cdf"


def run(ck):
    ck.part(formula)
    ck.part(instruments)


def mirror(t):
    """N(-x) = 1 - N(x) for every x that occurs with both signs"""
    seen, m = {}, {}
    for x in sorted((x for x in subterms(t) if x.op == "call" and x.args[0] == CDF), key=show):
        n, a = x.args[1]
        if (n, -a) in seen:
            m[x] = ONE - seen[(n, -a)]
        else:
            seen[(n, a)] = x
    return subst(t, m) if m else t


def formula(ck):
    c, p = inherent(ck, "Black76", "call_price"), inherent(ck, "Black76", "put_price")
    sc = summ_or_unk(ck, "formula", "call", c, {})
    sp = summ_or_unk(ck, "formula", "put", p, {})
    if sc is None or sp is None:
        return
    a = args(sc)
    sp = ck.summary(p, args=a)
    pos_ = conj(apply(lambda x: lt(ZERO, x), a[2]), conj(apply(lambda x: lt(ZERO, x), a[3]), apply(lambda x: lt(ZERO, x), a[4])))
    d = apply(lambda x, y: x - y, sc.E.snap(sc.state, sc.ret), sp.E.snap(sp.state, sp.ret))
    d = apply(mirror, d)
    ck.same("formula", "Black76", ck.where(c), d, a[1] * (a[2] - a[3]), conj(conj(sc.cond, sp.cond), pos_), "call minus put is not the discounted forward minus strike")


def instruments(ck):
    """a call and the put with the same terms differ by the discounted forward minus strike"""
    for nm, p, s, A, out, ds in c35.kinds(ck):
        me = args(s)[0]
        poc = F_(me, "vanilla", "put_or_call")
        r, o = s.E.snap(s.state, s.ret), s.E.snap(s.state, s.final(out))
        side = lambda t, w: parity(subst(t, {poc: variant(ck, "PutOrCall", w)}))
        j = A.j
        got = vecof(mapseg(A.n, apply(lambda x, y: x - y, idx(side(o, "Call"), j), idx(side(o, "Put"), j)), j))
        want = vecof(mapseg(A.n, ite(A.live, A.df * (A.f - A.k), ZERO), j))
        ok = conj(conj(isok(side(r, "Call")), isok(side(r, "Put"))), conj(s.cond, c35.shape(out, ds)))
        ck.same("instrument", nm, ck.where(p), got, want, ok, "call minus put is not the discounted forward minus strike")
        ck.count("option kinds")


def parity(t):
    """put formula in terms of the call formula (shown above)"""
    m = {}
    for x in subterms(t):
        if x.op == "call" and x.args[0] == BLACK[1]:
            a = x.args[1]
            m[x] = T("call", BLACK[0], a) - a[1] * (a[2] - a[3])
    return subst(t, m) if m else t
