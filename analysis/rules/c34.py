"""Arithmetic and order of dates.  Every operator of the dated types is summarised for any operands:
whole-day arithmetic on the day number, nothing else moved, order by date and then by time."""
from terms import *
from common import *
import ident

FLOOR = 6
ORD = ("Less", "Equal", "Greater")
o = lambda v: T("agg", "std::cmp::Ordering", v, ())


def run(ck):
    ck.part(arithmetic)
    ck.part(orders)
    ck.part(distances)
    ck.part(parts)


def op(ck, ty, tr, m, arg=None):
    """body of an operator; `arg` picks between right-hand types"""
    p = ck.F.adt_path(ty)
    for im in ck.F.by_trait_self.get(("std::ops::" + tr, p), []):
        b = dict(im["items"]).get(m)
        if b in ck.F.bodies:
            a = ck.F.bodies[b]["body"]["locals"][2]
            t = ck.F.types[a]
            if (t.get("path") == p) == (arg == "date"):
                return b
    return None


def arithmetic(ck):
    D = "Date"
    num_ops = (("Add", "add", None, lambda a, n: a + n), ("Sub", "sub", None, lambda a, n: a - n), ("Sub", "sub", "date", lambda a, b: a - b))
    for tr, m, arg, f in num_ops:
        expect(ck, "arithmetic", "Date/%s%s" % (m, " of a date" if arg else ""), op(ck, D, tr, m, arg), f, msg="not whole-day arithmetic")
    for tr, m, s in (("AddAssign", "add_assign", 1), ("SubAssign", "sub_assign", -1)):
        moved(ck, D, op(ck, D, tr, m), m, lambda a, n: a + n * num(s))
    for ty in ("DateTime", "DateDayFraction"):
        f = lambda a, n: dict((x, fld(a, x) + n if x == "date" else fld(a, x)) for x in fields(ck, ty))
        p = op(ck, ty, "Add", "add")
        expect(ck, "arithmetic", ty + "/add", p, lambda a, n: struct(ck, ty, **f(a, n)), msg="moves more than its date, or not by the days given")
        p = op(ck, ty, "AddAssign", "add_assign")
        s = summ_or_unk(ck, "arithmetic", ty + "/add_assign", p, {})
        if s is None:
            continue
        a, n = args(s)
        for x, w in f(a, n).items():
            ck.same("arithmetic", "%s/add_assign/%s" % (ty, x), ck.where(p), fld(s.final(a), x), w, s.cond, "moves more than its date, or not by the days given")
        # operators that are not there today must keep to the same rule
        for tr, m in (("Sub", "sub"), ("SubAssign", "sub_assign")):
            if op(ck, ty, tr, m) or op(ck, ty, tr, m, "date"):
                ck.unk("arithmetic", "%s/%s" % (ty, m), "", "a new operator")


def moved(ck, ty, p, m, f):
    s = summ_or_unk(ck, "arithmetic", "%s/%s" % (ty, m), p, {})
    if s is not None:
        a, n = args(s)
        ck.same("arithmetic", "%s/%s" % (ty, m), ck.where(p), s.final(a), f(a, n), s.cond, "not whole-day arithmetic")


def by(*keys):
    """lexicographic three-way comparison"""
    a, b = keys[0]
    rest = by(*keys[1:]) if len(keys) > 1 else o("Equal")
    return ite(lt(a, b), o("Less"), ite(lt(b, a), o("Greater"), rest))


def orders(ck):
    days = variants(ck, "TimeOfDay")
    rank = lambda x: None
    for ty, keys in (("Date", None), ("TimeOfDay", None), ("DateTime", ("date", "time_of_day")), ("DateDayFraction", ("date", "day_fraction"))):
        p = ck.F.adt_path(ty)
        if p is None:
            ck.unk("order", ty, "", "no such type")
            continue
        if keys is None:
            want = lambda a, b: by((a, b))
        else:
            want = lambda a, b: by(*((fld(a, k), fld(b, k)) for k in keys))
        if ty == "TimeOfDay":
            if set(days or ()) != set(CLOCK):
                ck.unk("order", ty, "", "the times of day have changed")
                continue
            listed = lambda a, b: pick(ck, a, b)
        for tr, m in (("PartialEq", "eq"), ("PartialEq", "ne"), ("PartialOrd", "partial_cmp"), ("Ord", "cmp"), ("PartialOrd", "lt"), ("PartialOrd", "le"),
                      ("PartialOrd", "gt"), ("PartialOrd", "ge"), ("Ord", "max"), ("Ord", "min")):
            q = ck.F.impl_method("std::cmp::" + tr, p, m)
            if q not in ck.F.bodies:
                continue
            alts = [want]
            # one comparison may be answered by another of the same type, judged on its own
            if keys is not None:
                alts.append(lambda a, b: by((a, b)))
            if ty == "TimeOfDay":
                alts = [listed, want] if m != "cmp" else [listed]
            compare_op(ck, ty, m, q, alts)
            ck.count("comparisons")


CLOCK = ("Open", "EDSP", "Close")     # as they follow each other in a day


def pick(ck, a, b):
    names = CLOCK
    r = None
    for i, x in enumerate(names):
        inner = None
        for j, y in enumerate(names):
            v = o("Less" if i < j else "Greater" if i > j else "Equal")
            inner = v if inner is None else ite(isv(ck, b, "TimeOfDay", y), v, inner)
        r = inner if r is None else ite(isv(ck, a, "TimeOfDay", x), inner, r)
    return r


def compare_op(ck, ty, m, q, alts):
    s = summ_or_unk(ck, "order", "%s/%s" % (ty, m), q, {})
    if s is None:
        return
    a, b = args(s)
    got = s.E.snap(s.state, s.ret)

    def shape(c):
        isx = lambda *v: apply(lambda l: TRUE if l.args[1] in v else FALSE, c)
        return {"cmp": lambda: c, "partial_cmp": lambda: apply(Some, c), "eq": lambda: isx("Equal"), "ne": lambda: isx("Less", "Greater"),
                "lt": lambda: isx("Less"), "le": lambda: isx("Less", "Equal"), "gt": lambda: isx("Greater"), "ge": lambda: isx("Greater", "Equal"),
                "max": lambda: ite(isx("Greater"), a, b), "min": lambda: ite(isx("Greater"), b, a)}[m]()
    for w in alts[1:]:
        if ident.identical(got, shape(w(a, b)), s.cond, 60, ck.seed)[0] == "eq":
            return ck.ok("order", "%s/%s" % (ty, m), ck.where(q))
    ck.same("order", "%s/%s" % (ty, m), ck.where(q), got, shape(alts[0](a, b)), s.cond, "not by date first and then by time")


def distances(ck):
    t = "Interpolable"
    expect(ck, "distance", "Date", method(ck, "Date", t, "interp_diff"), lambda a, b: b - a, msg="not the days from one date to the other")
    expect(ck, "distance", "DateDayFraction", method(ck, "DateDayFraction", t, "interp_diff"),
           lambda a, b: fld(b, "date") - fld(a, "date") + fld(b, "day_fraction") - fld(a, "day_fraction"), msg="not the days from one date to the other")
    for ty in ("Date", "DateDayFraction"):
        q = method(ck, ty, t, "interp_cmp")
        if q not in ck.F.bodies:
            ck.unk("distance", ty + "/order", "", "no such function")
            continue
        alts = [lambda a, b: by((a, b))]
        if ty != "Date":
            alts.insert(0, lambda a, b: by((fld(a, "date"), fld(b, "date")), (fld(a, "day_fraction"), fld(b, "day_fraction"))))
        s = ck.summary(q)
        compare_as(ck, "distance", ty + "/order", q, alts)


def compare_as(ck, rule, inst, q, alts):
    s = summ_or_unk(ck, rule, inst, q, {})
    if s is None:
        return
    a, b = args(s)
    got = s.E.snap(s.state, s.ret)
    for w in alts[1:]:
        if ident.identical(got, w(a, b), s.cond, 60, ck.seed)[0] == "eq":
            return ck.ok(rule, inst, ck.where(q))
    ck.same(rule, inst, ck.where(q), got, alts[0](a, b), s.cond, "not the order of the dates")


def parts(ck):
    for ty, x in (("DateTime", "time_of_day"), ("DateDayFraction", "day_fraction")):
        expect(ck, "parts", ty + "/new", inherent(ck, ty, "new"), lambda d, t: struct(ck, ty, **{"date": d, x: t}), msg="not what it was made of")
        for f in ("date", x):
            expect(ck, "parts", "%s/%s" % (ty, f), inherent(ck, ty, f), lambda me: fld(me, f), msg="not what it was made of")
