"""Fixings.  Look-ups, insertion and construction of the fixing table are summarised for any
number of curves and entries: an entry is found under exactly its instrument and time, a
missing one is absent or an error depending on the table's date, and a second value for the
same key is refused without touching the first, also when the table is read from text."""
from terms import *
from common import *

FLOOR = 3
IX, JX = T("ix", "curve"), T("ix", "entry")


def run(ck):
    ck.part(lookups)
    ck.part(insertion)
    ck.part(construction)
    ck.part(reading)


def entry(me, id, at_):
    m = F_(me, "fixings_by_id")
    c = F_(at(m, id), "fixing_by_date")
    return conj(has(m, id), has(c, at_)), at(c, at_)


def lookups(ck):
    def get(me, id, t):
        h, v = entry(me, id, t)
        late = apply(lambda a, b: lt(a, b), F_(t, "date"), F_(me, "fixings_known_until"))
        return ite(h, Ok(Some(v)), ite(late, ANYERR, Ok(NONE)))
    expect(ck, "look-up", "FixingTable::get", inherent(ck, "FixingTable", "get"), get,
           msg="not the recorded fixing, absent on or after the table's date and an error before")
    expect(ck, "look-up", "FixingTable::get_optional", inherent(ck, "FixingTable", "get_optional"), lambda me, id, t: opt(*entry(me, id, t)),
           msg="not the recorded fixing")

    def one(me, t):
        m = F_(me, "fixing_by_date")
        return opt(has(m, t), at(m, t))
    expect(ck, "look-up", "Fixings::get_optional", inherent(ck, "Fixings", "get_optional"), one, msg="not the recorded fixing")

    def must(me, id, t):
        m = F_(me, "fixing_by_date")
        return ite(has(m, t), Ok(at(m, t)), ANYERR)
    p = inherent(ck, "Fixings", "get")
    if p:
        expect(ck, "look-up", "Fixings::get", p, must, msg="not the recorded fixing or an error")
    expect(ck, "look-up", "FixingTable::fixings_known_until", inherent(ck, "FixingTable", "fixings_known_until"),
           lambda me: F_(me, "fixings_known_until"), msg="not the table's date")


def insertion(ck):
    p = inherent(ck, "FixingTable", "insert")
    s = summ_or_unk(ck, "insert", "FixingTable", p, {})
    if s is None:
        return
    me, id, fx = args(s)
    m = F_(me, "fixings_by_id")
    dup = has(m, id)
    ck.same("insert", "FixingTable/result", ck.where(p), s.E.snap(s.state, s.ret), ite(dup, ANYERR, Ok(UNIT)), s.cond,
            "a second curve for the same instrument is an error and a first one is not")
    after = s.final(me)
    ck.same("insert", "FixingTable/fixings_by_id", ck.where(p), fld(after, "fixings_by_id"), ite(dup, m, put(m, id, fx)), s.cond,
            "a recorded curve is lost or overwritten")
    ck.same("insert", "FixingTable/fixings_known_until", ck.where(p), fld(after, "fixings_known_until"), F_(me, "fixings_known_until"), s.cond,
            "inserting moves the table's date")


M0 = T("map0")


def curve(xs):
    """(two values for one time, map of all entries) of a list of pairs"""
    e = idx(xs, JX)
    n = length(xs)
    part = lambda k: putall(M0, k, JX, fld(e, "0"), fld(e, "1"))
    q = T("ix", "second")
    return mk_any(n, has(part(q), fld(idx(xs, q), "0")), q), part(n)


def table(ck, d, xs):
    e = idx(xs, IX)
    bad, c = curve(fld(e, "1"))
    fx = struct(ck, "Fixings", fixing_by_date=c)
    if fx is None:
        return None
    n = length(xs)
    part = lambda k: putall(M0, k, IX, fld(e, "0"), fx)
    q = T("ix", "other")
    twice = has(part(q), fld(idx(xs, q), "0"))
    wrong = mk_any(n, disj(subst(bad, {IX: q}), twice), q)
    t = struct(ck, "FixingTable", fixings_known_until=d, fixings_by_id=part(n))
    return t and ite(wrong, ANYERR, Ok(t))


def construction(ck):
    def new(id, xs):
        bad, c = curve(xs)
        fx = struct(ck, "Fixings", fixing_by_date=c)
        return fx and ite(bad, ANYERR, Ok(fx))
    expect(ck, "construct", "Fixings::new", inherent(ck, "Fixings", "new"), new, msg="entries are lost, or a duplicate is accepted")
    expect(ck, "construct", "FixingTable::new", inherent(ck, "FixingTable", "new"),
           lambda d: struct(ck, "FixingTable", fixings_known_until=d, fixings_by_id=M0), msg="not an empty table for that date")
    expect(ck, "construct", "FixingTable::from_fixings", inherent(ck, "FixingTable", "from_fixings"), lambda d, xs: table(ck, d, xs),
           msg="curves are lost, or a duplicate is accepted")
    expect(ck, "construct", "FixingTable::from_iter_known_until", inherent(ck, "FixingTable", "from_iter_known_until"),
           lambda d, xs: table(ck, d, T("items", xs)), msg="curves are lost, or a duplicate is accepted")


NEXT = "SeqAccess::next_element"


def reading(ck):
    """a written curve is read entry by entry to its end; a repeated time is an error"""
    ps = [p for p in ck.F.bodies if p.endswith("::visit_seq") and "fixings::" in p and "__Visitor" not in p]
    if len(ps) != 1:
        return ck.unk("read", "Fixings")
    s = summ_or_unk(ck, "read", "Fixings", ps[0], {})
    if s is None:
        return
    seq = args(s)[1]
    ret = s.E.snap(s.state, s.ret)
    ends = set(x for x in subterms(ret) if x.op == "wit" and x.args[0].op == "trip")
    if len(ends) != 1:
        return ck.unk("read", "Fixings", ck.where(ps[0]), "the loop over the entries is not understood")
    end = ends.pop()
    i, q = T("ix", "read"), T("ix", "last")
    nxt = lambda k: call(NEXT, T("fold", seq, k, 1, T("mut", NEXT, 0, (T("acc", 1),))))
    item = lambda k: fld(okv(nxt(k)), "Some.0")
    part = lambda k: putall(M0, k, i, fld(item(i), "0"), fld(item(i), "1"))
    some = conj(isok(nxt(q)), isvar(okv(nxt(q)), OPT, "Some"))
    stop = disj(neg(some), has(part(q), fld(item(q), "0")))
    w = ck.where(ps[0])
    ck.same("read", "Fixings/end", w, subst(end.args[2], {T("bv", end.args[1]): q}), stop, TRUE,
            "reading does not stop exactly at the end, a failure or a repeated time")
    e = nxt(end)
    want = ite(isok(e), ite(isvar(okv(e), OPT, "None"), Ok(part(end)), ANYERR), ANYERR)
    ck.same("read", "Fixings/result", w, ret, want, s.cond, "not all the entries, or a repeated time is accepted")
