"""Business days.  Counting and stepping are reduced to one closed expression each.  For the weekday
calendar the expression is evaluated on whole classes of inputs, a class being all dates of one day of
the week and all steps of one remainder by five, which covers every date and step.  For the calendar
with holidays the expression is folded for every set of holidays within a window of days and compared
with the business days of that set.  The calendars and rules built on others are value-numbered."""
import bisect
import itertools
from terms import *
from common import *
from c41 import Odd, tdiv

FLOOR = 8
SEARCH = "slice::binary_search"
WD, HD = "WeekdayCalendar", "WeekdayAndHolidayCalendar"


def run(ck):
    ck.part(every_day)
    ck.part(holidays)
    for ty in (WD, HD):
        ck.part(bounded_step, ty)
        ck.part(bounded_count, ty)
    ck.part(classes_step)
    ck.part(classes_count)
    ck.part(weighted)
    ck.part(defaults)
    ck.part(rules)


def cal(ck, ty, m):
    return method(ck, ty, "Calendar", m)


# ------------------------------------------------------------------------- folding a closed expression
class Undef(Exception):
    pass


def free(t):
    return any(x.op in ("bv", "acc") for x in subterms(t))


class Folder:
    """compiles a term to a function of an environment: parameters by name, 'h' the sorted holidays"""

    def __init__(self):
        self.done = {}

    def comp(self, t):
        f = self.done.get(t)
        if f is None:
            f = self.make(t)
            if t.op in ("wit", "sum", "any", "call", "poly") and not free(t):
                g, k = f, (t.op, t.id)

                def f(e):
                    m = e["memo"]
                    if k not in m:
                        m[k] = g(e)
                    return m[k]
            self.done[t] = f
        return f

    def make(self, t):
        o, a = t.op, t.args
        if o == "num":
            c = int(a[0]) if a[0].denominator == 1 else a[0]
            return lambda e: c
        if o == "bool":
            return lambda e: a[0]
        if o == "bot":
            def f(e):
                raise Undef()
            return f
        if o in ("p", "bv"):
            k = a[0] if o == "p" else t

            def f(e):
                if k not in e:
                    raise Odd()
                return e[k]
            return f
        if o == "P":
            return self.comp(a[0])
        if o == "poly":
            ms = []
            for m, c in a[0]:
                if any(x < 1 for _, x in m):
                    raise Odd()
                ms.append((int(c) if c.denominator == 1 else c, [self.comp(b) for b, x in m for _ in range(x)]))

            def f(e):
                s = 0
                for c, fs in ms:
                    for g in fs:
                        c = c * g(e)
                    s += c
                return s
            return f
        if o == "dd":
            var, kids = a
            ks = [None] * len(kids)

            def kid(i):
                if ks[i] is None:
                    ks[i] = self.comp(kids[i])
                return ks[i]
            if var.op == "cmp0":
                x = self.comp(var.args[0])

                def f(e):
                    v = x(e)
                    return kid(0 if v < 0 else 1 if v == 0 else 2)(e)
                return f
            if var.op == "discr":
                c = var.args[0]
                if c.op == "call" and c.args[0] == SEARCH:
                    x = self.comp(c.args[1][1])
                    names = var.args[1]

                    def f(e):
                        return kid(names.index("Ok" if x(e) in e["set"] else "Err"))(e)
                    return f
                raise Odd()
            b = self.comp(var)
            return lambda e: kid(1 if b(e) else 0)(e)
        if o == "fld" and a[1] in ("Ok.0", "Err.0") and a[0].op == "call" and a[0].args[0] == SEARCH:
            x = self.comp(a[0].args[1][1])
            return lambda e: bisect.bisect_left(e["h"], x(e))
        if o == "len" and a[0].op == "fld" and a[0].args[1] == "holidays":
            return lambda e: len(e["h"])
        if o == "idx" and a[0].op == "fld" and a[0].args[1] == "holidays":
            i = self.comp(a[1])

            def f(e):
                k = i(e)
                if not 0 <= k < len(e["h"]):
                    raise Undef()
                return e["h"][k]
            return f
        if o in ("any", "sum") and a[0].op == "trip":
            raise Odd()
        if o in ("wit", "any", "sum") and len(a) == 3:
            n = None if a[0].op == "trip" else self.comp(a[0])
            bv, body = T("bv", a[1]), self.comp(a[2])
            if o == "sum" and not any(x.op in ("bv", "acc") and x != bv for x in subterms(a[2])):
                return self.prefix(t.id, n, bv, body)

            def f(e):
                top = 150 if n is None else n(e)
                s, had = 0, bv in e
                old = e.get(bv)
                i = 0
                try:
                    while i < top:
                        e[bv] = i
                        v = body(e)
                        if o == "sum":
                            s += v
                        elif v:
                            return i if o == "wit" else True
                        i += 1
                finally:
                    if had:
                        e[bv] = old
                    else:
                        e.pop(bv, None)
                if o == "wit":
                    raise Odd()
                return s if o == "sum" else False
            return f
        if o == "call" and len(a[1]) in (1, 2):
            xs = [self.comp(x) for x in a[1]]
            g = {"idiv": tdiv, "rem": lambda p, q: p - q * tdiv(p, q), "max": max, "min": min, "abs": abs}.get(a[0])
            if g is None:
                raise Odd()
            return lambda e: g(*[x(e) for x in xs])
        if o == "min" and len(a) == 2:
            x, y = self.comp(a[0]), self.comp(a[1])
            return lambda e: min(x(e), y(e))
        raise Odd()

    def prefix(self, k, n, bv, body):
        """a sum whose terms depend on their index only: partial sums are kept"""
        if n is None:
            raise Odd()

        def f(e):
            ps = e["memo"].setdefault(k, [0])
            m = n(e)
            had, old = bv in e, e.get(bv)
            while len(ps) <= m:
                e[bv] = len(ps) - 1
                ps.append(ps[-1] + body(e))
            if had:
                e[bv] = old
            else:
                e.pop(bv, None)
            return ps[max(m, 0)]
        return f


def closed(ck, rule, inst, p):
    s = summ_or_unk(ck, rule, inst, p, {})
    if s is None:
        return None, None
    ps = [x.args[0] if x.op == "p" else None for x in args(s)]
    try:
        f = Folder().comp(restrict(s.E.snap(s.state, s.ret), s.cond))
    except (Odd, RecursionError):
        ck.unk(rule, inst, ck.where(p), "not one closed expression")
        return None, None
    return f, ps


BASE = 7 * 1000 - 3         # a Monday


def dow(d):
    return (d + 3) % 7


def business(d, h):
    return dow(d) < 5 and d not in h


def slip(d, dir, h):
    while not business(d, h):
        d += dir
    return d


def nth(d, n, h):
    while n:
        d = slip(d + (1 if n > 0 else -1), 1 if n > 0 else -1, h)
        n -= 1 if n > 0 else -1
    return d


def sets(ty, days):
    if ty == WD:
        return [()]
    ds = [d for d in days if dow(d) < 5]
    return [c for k in range(len(ds) + 1) for c in itertools.combinations(ds, k)]


def agree(ck, rule, inst, p, f, cases):
    """the expression has the required value in every case"""
    n = 0
    try:
        for e, want, text in cases:
            e["memo"] = {}
            n += 1
            got = f(e)
            if got != want:
                return ck.bad(rule, inst, ck.where(p), "%s gives %s where the calendar gives %s" % (text(), got, want))
    except Undef:
        return ck.bad(rule, inst, ck.where(p), "%s does not return" % text())
    except (Odd, RecursionError):
        return ck.unk(rule, inst, ck.where(p), "not folded to a number")
    ck.count("values folded", n)
    ck.ok(rule, inst, ck.where(p))


def env(ps, vals, h):
    e = dict(zip(ps[1:], vals))
    e["h"], e["set"] = sorted(h), frozenset(h)
    return e


def tell(what, vals, h):
    return lambda: "%s%s with holidays %s (day 0 is a Monday)" % (what, tuple(v - BASE if v > 5000 else v for v in vals), [x - BASE for x in h])


def bounded_step(ck, ty):
    p = cal(ck, ty, "step")
    f, ps = closed(ck, "step", ty, p)
    if f is None:
        return

    def cases():
        for r in range(7):
            d = BASE + 70 + r
            for sign in (1, -1):
                for h in sets(ty, range(d, d + sign * 11, sign)):
                    hs = frozenset(h)
                    for fwd in (True, False):
                        a = slip(d, 1 if fwd else -1, hs)
                        for n in range(0, 6):
                            v = (d, sign * n, fwd)
                            yield env(ps, v, h), nth(a, sign * n, hs), tell("step", v, h)
        # long steps, few holidays
        for r in range(7):
            d = BASE + 70 + r
            for h in [()] + ([(d + k,) for k in (-30, -8, -1, 0, 1, 9, 31) if dow(d + k) < 5] if ty == HD else []):
                hs = frozenset(h)
                for n in range(-45, 46) if ty == WD else range(-26, 27, 4):
                    v = (d, n, n >= 0)
                    yield env(ps, v, h), nth(slip(d, 1 if n >= 0 else -1, hs), n, hs), tell("step", v, h)
    agree(ck, "step", ty, p, f, cases())


def bounded_count(ck, ty):
    p = cal(ck, ty, "count_business_days")
    f, ps = closed(ck, "count", ty, p)
    if f is None:
        return

    def upto(d, part, h):
        """business time from long before to this point of the day"""
        return sum(1 for x in range(BASE, d) if business(x, h)) + (part if business(d, h) else 0)

    def cases():
        fr, to = 0.25, 0.625
        for r in range(7):
            d = BASE + 21 + r
            for h in sets(ty, range(d - 1, d + 10)):
                hs = frozenset(h)
                lo = upto(d, fr, hs)
                for k in range(-2, 13):
                    v = (d, fr, d + k, to)
                    want = upto(d + k, to, hs) - lo if k >= 0 else 0
                    yield env(ps, v, h), want, tell("count", v, h)
            for h in [()] + ([(d + 40,), (d - 3, d + 20)] if ty == HD and dow(d + 40) < 5 and dow(d - 3) < 5 and dow(d + 20) < 5 else []):
                hs = frozenset(h)
                lo = upto(d, fr, hs)
                for k in range(0, 100):
                    v = (d, fr, d + k, to)
                    yield env(ps, v, h), upto(d + k, to, hs) - lo, tell("count", v, h)
    agree(ck, "count", ty, p, f, cases())


# ------------------------------------------------------------------------- whole classes of inputs
SPAN = 7 * 10410


class Lin:
    """a number that is a whole multiple of each of some unknown non-negative integers, plus a constant"""
    __slots__ = ("k", "c")

    def __init__(self, c, k=()):
        self.c = c
        self.k = {s: x for s, x in dict(k).items() if x}

    def __add__(self, o):
        k = dict(self.k)
        for s, x in o.k.items():
            k[s] = k.get(s, 0) + x
        return Lin(self.c + o.c, k)

    def times(self, c):
        return Lin(self.c * c, {s: x * c for s, x in self.k.items()})

    def signs(self):
        """the signs it can have"""
        v = self.k.values()
        if any(k in self.k for k in "fg"):
            return (0, 1, 2)
        # seven of each unknown, added up, stay within the dates there are, a few weeks from the last
        lo, hi = self.c + min(0, 0, *v) * SPAN // 7, self.c + max(0, 0, *v) * SPAN // 7
        return tuple(i for i, x in enumerate((lo < 0, lo <= 0 <= hi, hi > 0)) if x)

    def key(self):
        return (self.c, tuple(sorted(self.k.items())))


def split(x, m):
    """quotient and remainder, truncating"""
    s = x.signs()
    if any(c % m for c in x.k.values()) or 0 in s and 2 in s or not isinstance(x.c, int):
        raise Odd()
    if 0 in s:
        q, r = split(x.times(-1), m)
        return q.times(-1), r.times(-1)
    return Lin(x.c // m, {k: c // m for k, c in x.k.items()}), Lin(x.c % m)


def worth(t, e):
    """the values a term can have on a class of inputs"""
    m = e["memo"]
    r = m.get(t)
    if r is None:
        r = m[t] = list({v.key() if isinstance(v, Lin) else v: v for v in _worth(t, e)}.values())
        if len(r) > 40:
            raise Odd()
    return r


def _worth(t, e):
    o, a = t.op, t.args
    if o == "num":
        return [Lin(int(a[0]) if a[0].denominator == 1 else a[0])]
    if o == "bool":
        return [a[0]]
    if o == "bot":
        return []
    if o == "p":
        if a[0] not in e:
            raise Odd()
        return [e[a[0]]]
    if o == "P":
        return worth(a[0], e)
    if o == "poly":
        out = [Lin(0)]
        for m, c in a[0]:
            if len(m) > 1 or any(x != 1 for _, x in m):
                raise Odd()
            c = int(c) if c.denominator == 1 else c
            vs = [v.times(c) for v in worth(m[0][0], e)] if m else [Lin(c)]
            out = [x + y for x in out for y in vs]
        return out
    if o == "dd":
        var, kids = a
        if var.op == "cmp0":
            which = set(i for v in worth(var.args[0], e) for i in v.signs())
        elif var.op in ("p",):
            which = set(int(v) for v in worth(var, e))
        else:
            raise Odd()
        return [v for i in sorted(which) for v in worth(kids[i], e)]
    if o == "call" and a[0] in ("idiv", "rem") and len(a[1]) == 2 and a[1][1].op == "num":
        m = int(a[1][1].args[0])
        return [split(x, m)[a[0] == "rem"] for x in worth(a[1][0], e)]
    raise Odd()


def classes(ck, rule, inst, p, cases):
    s = summ_or_unk(ck, rule, inst, p, {})
    if s is None:
        return
    ps = [x.args[0] if x.op == "p" else None for x in args(s)]
    t = restrict(s.E.snap(s.state, s.ret), s.cond)
    n = 0
    try:
        for vals, want, text in cases:
            e = dict(zip(ps[1:], vals))
            e["memo"] = {}
            n += 1
            got = worth(t, e)
            if len(got) != 1:
                return ck.unk(rule, inst, ck.where(p), "not one value on the class " + text)
            if got[0].key() != want.key():
                return ck.bad(rule, inst, ck.where(p), "on the class %s it is %s instead of %s" % (text, got[0].key(), want.key()))
    except (Odd, AttributeError, TypeError, RecursionError):
        return ck.unk(rule, inst, ck.where(p), "not followed on classes of inputs")
    ck.count("classes of inputs", n)
    ck.ok(rule, inst, ck.where(p))


def weekday(w):
    """the date of weekday number w, a class with multiples of five"""
    q, r = split(w, 5)
    return q.times(7) + r + Lin(-3)


def classes_step(ck):
    def cases():
        for r in range(7):
            for fwd in (True, False):
                for sign in (1, -1):
                    for s in range(5):
                        for many in (False, True):
                            # a step of s, or of any s + 5(p + 1), from any date two weeks and the step after the first
                            n = Lin(s, {"p": 5}) + Lin(5) if many else Lin(s)
                            d = Lin(7 * 4 + r - 3, {"q": 7, "p": 7 if many else 0})
                            w = Lin(20 + min(r, 4), {"q": 5, "p": 5 if many else 0})
                            if r > 4:
                                w = Lin(25 if fwd else 24, {"q": 5, "p": 5 if many else 0})
                            yield ((d, n.times(sign), fwd), weekday(w + n.times(sign)),
                                   "day of the week %d, step %s(%d%s), slip %s" % (r, "" if sign > 0 else "-", s, " + 5k" if many else "", fwd))
    classes(ck, "step", WD + "/any", cal(ck, WD, "step"), cases())


def classes_count(ck):
    f, g = Lin(0, {"f": 1}), Lin(0, {"g": 1})

    def upto(weeks, r, part):
        return weeks.times(5) + (Lin(r) + part if r < 5 else Lin(5))

    def cases():
        for r in range(7):
            for t in range(7):
                for back in (False, True):
                    for far in (0, 1, 2):
                        # the same week, the next, any later one
                        q = Lin(2, {"q": 1})
                        k = q + Lin(far, {"k": 1} if far > 1 else {})
                        a, b = (k, q) if back else (q, k)
                        d, e = a.times(7) + Lin(r - 3), b.times(7) + Lin(t - 3)
                        wrong = back and far or not far and r > t
                        if back and not far:
                            continue
                        want = Lin(0) if wrong else upto(b, t, g) + upto(a, r, f).times(-1)
                        yield (d, f, e, g), want, "from day of the week %d to %d, %s" % (r, t, "earlier weeks" if back else "later weeks" if far else "same week")
    classes(ck, "count", WD + "/any", cal(ck, WD, "count_business_days"), cases())


# ------------------------------------------------------------------------- the rest
def valid(d):
    return conj(apply(lambda x: lt(ZERO, x), d), apply(lambda x: lt(x, num(200 * 365)), d))


def every_day(ck):
    ty = "EveryDayCalendar"
    expect(ck, "every day", "is_holiday", cal(ck, ty, "is_holiday"), lambda me, d: FALSE, msg="some day is a holiday")
    expect(ck, "every day", "count", cal(ck, ty, "count_business_days"),
           lambda me, a, f, b, g: ite(apply(lambda x, y: lt(x, y), b, a), ZERO, b - a + g - f), msg="not the days between")
    expect(ck, "every day", "step", cal(ck, ty, "step"), lambda me, d, n, s: d + n, msg="not that many days on")
    expect(ck, "every day", "basis", cal(ck, ty, "standard_basis"), lambda me: num(365), msg="not 365 days in the year")


def holidays(ck):
    """what a business day is"""
    wk = lambda d: apply(lambda x: lt(num(4), x), call("rem", 3 + d, num(7)))
    expect(ck, "holiday", WD, cal(ck, WD, "is_holiday"), lambda me, d: wk(d), msg="not exactly Saturday and Sunday")
    p = cal(ck, HD, "is_holiday")
    f, ps = closed(ck, "holiday", HD, p)
    if f is not None:
        def cases():
            for r in range(7):
                d = BASE + 70 + r
                for h in sets(HD, range(d - 1, d + 2)) + [(d - 9, d - 7, d + 7), (d,)]:
                    yield env(ps, (d,), h), not business(d, frozenset(h)), tell("is_holiday", (d,), h)
        agree(ck, "holiday", HD, p, f, cases())
    for ty in (WD, HD):
        expect(ck, "holiday", ty + "/basis", cal(ck, ty, "standard_basis"), lambda me: num(252), msg="not 252 days in the year")
    p = inherent(ck, HD, "new")
    expect(ck, "holiday", HD + "::new", p, lambda n, hs: struct(ck, HD, name=n, holidays=hs), msg="not the holidays given")


def weighted(ck):
    ty = "VolatilityCalendar"
    w = lambda me: F_(me, "holiday_weight")
    c = lambda me: F_(me, "calendar")
    expect(ck, "weighted", "is_holiday", cal(ck, ty, "is_holiday"), lambda me, d: call("Calendar::is_holiday", c(me), d), msg="not the holidays of the calendar below")
    expect(ck, "weighted", "count", cal(ck, ty, "count_business_days"),
           lambda me, a, f, b, g: ite(apply(lambda x, y: lt(x, y), b, a), ZERO,
                                      call("Calendar::count_business_days", c(me), a, f, b, g) * (1 - w(me)) + (b - a + g - f) * w(me)),
           msg="not business days plus holidays at their weight")
    expect(ck, "weighted", "basis", cal(ck, ty, "standard_basis"), lambda me: call("Calendar::standard_basis", c(me)) * (1 - w(me)) + 365 * w(me),
           msg="the year is not weighed like its days")
    expect(ck, "weighted", "day_weight", cal(ck, ty, "day_weight"),
           lambda me, d: ite(call("Calendar::is_holiday", c(me), d), w(me), ONE), msg="not the weight of a day")
    expect(ck, "weighted", "step", cal(ck, ty, "step"), lambda me, d, n, f: call("Calendar::step_partial", me, d, n, f), msg="not the whole step, in the direction asked",
           opaque=lambda k, p: k.startswith("Calendar::"))
    expect(ck, "weighted", "new", inherent(ck, ty, "new"), lambda n, k, h: struct(ck, ty, name=n, calendar=k, holiday_weight=h), msg="not the calendar given")


def defaults(ck):
    for ty in ("EveryDayCalendar", WD, HD, "VolatilityCalendar"):
        expect(ck, "years", ty, cal(ck, ty, "year_fraction"),
               lambda me, a, b: call("Calendar::count_business_days", me, F_(a, "date"), F_(a, "day_fraction"), F_(b, "date"), F_(b, "day_fraction"))
               / call("Calendar::standard_basis", me), msg="not the days between over the days of a year", opaque=lambda k, p: k.startswith("Calendar::"))
    for ty in ("EveryDayCalendar", WD, HD):
        expect(ck, "partial steps", ty, cal(ck, ty, "step_partial"), lambda me, d, n, f: call("Calendar::step", me, d, call("trunc", call("round", n)), f),
               msg="not the nearest whole step", opaque=lambda k, p: k.startswith("Calendar::"))
    for ty in (WD, HD):
        expect(ck, "weight", ty, cal(ck, ty, "day_weight"), lambda me, d: ite(call("Calendar::is_holiday", me, d), ZERO, ONE),
               msg="a holiday has weight or a business day has not", opaque=lambda k, p: k.startswith("Calendar::"))


def rules(ck):
    st = "Calendar::step"
    c = lambda me: F_(me, "calendar")
    expect(ck, "rule", "NullRule", method(ck, "NullRule", "DateRule", "apply"), lambda me, d: d, msg="the date is moved")
    expect(ck, "rule", "BusinessDays", method(ck, "BusinessDays", "DateRule", "apply"),
           lambda me, d: call(st, c(me), d, F_(me, "step"), F_(me, "slip_forward")), msg="not the rule's own step")
    for m, n, fwd in (("new_next", lambda *x: ZERO, TRUE), ("new_prev", lambda *x: ZERO, FALSE), ("new_step", lambda k, s: s, TRUE), ("new_back", lambda k, s: -s, FALSE)):
        expect(ck, "rule", "BusinessDays::" + m, inherent(ck, "BusinessDays", m),
               lambda k, *x, n=n, fwd=fwd: struct(ck, "BusinessDays", calendar=k, step=n(k, *x), slip_forward=fwd), msg="not the step asked for")

    def modified(me, d):
        f = call(st, c(me), d, ZERO, TRUE)
        month = lambda x: fld(call("Date::ymd", x), "1")
        return ite(apply(lambda x, y: eq(x, y), month(d), month(f)), f, call(st, c(me), d, ZERO, FALSE))
    expect(ck, "rule", "ModifiedFollowing", method(ck, "ModifiedFollowing", "DateRule", "apply"), modified,
           msg="not the next business day, or the previous one when the month changes", opaque=opq("Date::ymd"))
    expect(ck, "rule", "ModifiedFollowing::new", inherent(ck, "ModifiedFollowing", "new"), lambda k: struct(ck, "ModifiedFollowing", calendar=k), msg="not the calendar given")
