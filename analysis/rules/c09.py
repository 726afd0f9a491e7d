"""Reports and the pricer they work on.  Each report generator is summarised as a state
machine over the pricer and the save area: every round of its loop must end with both as
they were at its start, and a report that succeeds must return with both as it found them."""
from terms import *
from common import *
import reports

FLOOR = 3


def run(ck):
    for ty, p in reports.generators(ck):
        ck.part(one, ty, p)


def one(ck, ty, p):
    s = summ_or_unk(ck, "report", ty, p, dict(contract=reports.contract))
    if s is None:
        return
    me, pr, sv, base = args(s)
    w = ck.where(p)
    ok = conj(s.cond, isok(s.E.snap(s.state, s.ret)))
    what = {pr: "pricer", sv: "save area"}
    opened = {}
    for u, (k, m, init, after, c) in s.E.open.items():
        if k[0][0] == "M" and k[0][1] in what and k[1] == ():
            opened[k[0][1]] = (m, after, c)
    names = {m: P(what[r] + " before") for r, (m, _, _) in opened.items()}
    for r in (pr, sv):
        if r in opened:
            m, after, c = opened[r]
            ck.same("round", "%s/%s" % (ty, what[r]), w, subst(after, names), names[m], subst(c, names),
                    "after one round the %s is not as before it" % what[r])
            continue
        ck.same("report", "%s/%s" % (ty, what[r]), w, s.E.snap(s.state, s.final(r)), r, ok, "the %s is not as it was before the report" % what[r])
    for c, name, snaps, ret, span, path in s.E.events:
        if name == reports.GEN:
            ck.same("nested", ty, span, snaps[2], sv, conj(c, s.cond), "a nested report is given a save area in use")
    ck.count("report generators")
