"""Day numbers and calendar dates.  The conversions are straight-line integer arithmetic; each is
reduced to one closed expression, which is folded for every day of the supported range and compared
with the Gregorian calendar."""
import datetime
from terms import *
from common import *

FLOOR = 2
EPOCH = datetime.date(1968, 5, 23).toordinal()
LAST = 200 * 365


class Odd(Exception):
    pass


def tdiv(a, b):
    if b == 0:
        raise Odd()
    q = abs(a) // abs(b)
    return q if (a < 0) == (b < 0) else -q


def code(t):
    """python expression of an integer term; parameters are looked up by name"""
    if t.op == "num":
        if t.args[0].denominator != 1:
            raise Odd()
        return "(%d)" % t.args[0]
    if t.op == "p":
        return "v[%r]" % t.args[0]
    if t.op == "poly":
        out = []
        for m, c in t.args[0]:
            if c.denominator != 1 or any(e < 1 for _, e in m):
                raise Odd()
            out.append("*".join(["(%d)" % c] + [memo(x) for x, e in m for _ in range(e)]))
        return "(" + "+".join(out) + ")"
    if t.op == "call" and t.args[0] in ("idiv", "rem") and len(t.args[1]) == 2:
        a, b = (memo(x) for x in t.args[1])
        return "tdiv(%s,%s)" % (a, b) if t.args[0] == "idiv" else "trem(%s,%s)" % (a, b)
    if t.op == "dd" and t.args[0].op == "cmp0":
        x = memo(t.args[0].args[0])
        l, e, g = (code(k) for k in t.args[1])
        return "(%s if %s < 0 else %s if %s == 0 else %s)" % (l, x, e, x, g)
    if t is TRUE or t is FALSE:
        return str(t is TRUE)
    if t.op == "bot":
        return "None"
    raise Odd()


NAMES, LINES = {}, []


def memo(t):
    """name of a shared subexpression"""
    if t.op in ("num", "p"):
        return code(t)
    if t not in NAMES:
        c = code(t)
        if t.op == "dd":
            return c
        NAMES[t] = "x%d" % len(NAMES)
        LINES.append("    %s = %s" % (NAMES[t], c))
    return NAMES[t]


def function(terms):
    NAMES.clear()
    del LINES[:]
    rs = [code(t) for t in terms]
    src = "def f(v):\n%s\n    return (%s,)" % ("\n".join(LINES) or "    pass", ", ".join(rs))
    env = {"tdiv": tdiv, "trem": lambda a, b: a - b * tdiv(a, b)}
    exec(src, env)
    return env["f"]


def folded(ck, inst, p, cases, parts):
    """the value of p equals what is required in every case; cases yields (arguments, required)"""
    s = summ_or_unk(ck, "calendar", inst, p, {})
    if s is None:
        return
    names = list(s.params)
    got = s.E.snap(s.state, s.ret)
    try:
        f = function([fld(got, str(i)) for i in range(parts)] if parts > 1 else [got])
    except Odd:
        return ck.unk("calendar", inst, ck.where(p), "not one integer expression")
    n = 0
    ps = [x.args[0] for x in args(s) if x.op == "p"]
    if len(ps) != len(names):
        return ck.unk("calendar", inst, ck.where(p), "parameters not understood")
    try:
        for a, want in cases:
            n += 1
            r = f(dict(zip(ps, a)))
            if r != want:
                return ck.bad("calendar", inst, ck.where(p), "for %s the expression gives %s, the calendar %s" % (a, r, want))
    except Odd:
        return ck.unk("calendar", inst, ck.where(p), "divides by zero")
    ck.ok("calendar", inst, ck.where(p))
    ck.count("values folded", n)


def run(ck):
    ck.part(conversions)
    ck.part(week)
    ck.part(plain)


def days():
    for n in range(1, LAST):
        d = datetime.date.fromordinal(EPOCH + n)
        yield n, d


def conversions(ck):
    for inst, p in (("to year, month and day", inherent(ck, "Date", "ymd")),):
        folded(ck, inst, p, (((n,), (d.year, d.month, d.day)) for n, d in days()), 3)
    for inst, p in (("from year, month and day", inherent(ck, "Date", "from_ymd")),):
        folded(ck, inst, p, (((d.year, d.month, d.day), (n,)) for n, d in days()), 1)


def week(ck):
    folded(ck, "day of the week", inherent(ck, "Date", "day_of_week"), (((n,), (d.weekday(),)) for n, d in days()), 1)


def plain(ck):
    expect(ck, "number", "from_truncated_julian", inherent(ck, "Date", "from_truncated_julian"), lambda n: n, msg="not the day number given")
    expect(ck, "number", "truncated_julian", inherent(ck, "Date", "truncated_julian"), lambda me: me, msg="not the day number")
