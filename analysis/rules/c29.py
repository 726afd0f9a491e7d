"""Interpolation and extrapolation.  The value of every interpolator is summarised for any points,
abscissa and rules; outside the points it must be what the rule of that side says."""
from terms import *
from common import *

FLOOR = 3
SEARCH = "slice::binary_search_by"
DIFF, CMP = "Interpolable::interp_diff", "Interpolable::interp_cmp"
EX = "Extrap"


def real(name, j, a):
    """abscissae are numbers for the purpose of arithmetic"""
    if name == DIFF and j is None:
        return a[1] - a[0]
    return None


OPQ = dict(opaque=opq(DIFF, CMP), contract=real)


class Curve:
    """one interpolator: its body, the points, rules and segments it works on"""

    def __init__(self, ck, rule, ty, trait, segment):
        self.ck, self.rule, self.ty = ck, rule, ty
        self.p = method(ck, ty, trait, "interpolate")
        self.s = s = summ_or_unk(ck, rule, ty, self.p, OPQ)
        self.b = None
        if s is None:
            return
        a = args(s)
        me, self.x = a[0], a[1]
        pts = a[2] if len(a) > 2 else None
        find = set(t for t in subterms(s.ret) if t.op == "call" and t.args[0] == SEARCH)
        if len(find) != 1:
            return ck.unk(rule, ty, ck.where(self.p), "the point is not looked up by one bisection")
        b = find.pop()
        self.pts = b.args[1][0]
        f = b.args[1][1]
        if f.op != "lam" or f.args[1] is not call(CMP, fld(P("lam1.0"), "0"), self.x) or pts is not None and pts is not self.pts:
            return ck.unk(rule, ty, ck.where(self.p), "the comparison is not understood")
        self.b, self.n = b, length(self.pts)
        own = self.pts.args[0] if pts is None else me
        self.own, self.me = own, me
        self.left, self.right = fld(own, "left"), fld(own, "right")
        self.segment = segment
        self.miss = fld(b, "Err.0")
        self.hit = isok(b)
        self.first = lit(T("cmp0", self.miss), "E")
        self.past = neg(lt(self.miss, self.n))

    def y(self, i):
        return fld(idx(self.pts, i), "1")

    def abscissa(self, i):
        return fld(idx(self.pts, i), "0")

    def seg(self, i, j):
        return self.segment(self, i, j)

    def step(self, i, j):
        return self.abscissa(j) - self.abscissa(i)

    def sound(self):
        """at least two points, a search that answers within bounds, neighbours apart"""
        m, n = self.miss, self.n
        apart = lambda i, j: lt(num("1/1000000000"), self.step(i, j))
        inside = conj(conj(neg(self.first), neg(self.past)), apart(m - ONE, m))
        ends = conj(apart(ZERO, ONE), apart(n - ONE - ONE, n - ONE))
        return conj(lt(ONE, n), disj(self.hit, disj(inside, conj(disj(self.first, self.past), ends))))

    def alone(self, what, want, cond, msg):
        """one point only"""
        s = self.s
        one = conj(lt(ZERO, self.n), neg(lt(ONE, self.n)))
        self.ck.same(self.rule, "%s/%s" % (self.ty, what), self.ck.where(self.p), s.E.snap(s.state, s.ret), want, conj(s.cond, conj(one, cond)), msg)

    def same(self, what, want, cond, msg):
        s = self.s
        self.ck.same(self.rule, "%s/%s" % (self.ty, what), self.ck.where(self.p), s.E.snap(s.state, s.ret), want, conj(s.cond, conj(self.sound(), cond)), msg)


def line(c, i, j):
    t = (c.x - c.abscissa(i)) / c.step(i, j)
    return c.y(i) + (c.y(j) - c.y(i)) * t


def cubic(c, i, j):
    h = c.step(i, j)
    a, b = (c.abscissa(j) - c.x) / h, (c.x - c.abscissa(i)) / h
    d = lambda k: idx(fld(c.me, "second_deriv"), k)
    return a * c.y(i) + b * c.y(j) + ((a * a * a - a) * d(i) + (b * b * b - b) * d(j)) * h * h / num(6)


def curves(ck, rule):
    out = [Curve(ck, rule, "FlyweightLinear", "FlyweightInterpolate", line), Curve(ck, rule, "Linear", "Interpolate", line),
           Curve(ck, rule, "CubicSpline", "Interpolate", cubic)]
    return [c for c in out if c.b is not None]


def rule_of(ck, side, natural, end):
    e = lambda v: isv(ck, side, EX, v)
    return ite(e("Flat"), Ok(end), ite(e("Natural"), Ok(natural), ite(e("Zero"), Ok(ZERO), ite(e("NotANumber"), Ok(T("fconst", "NaN")), ANYERR))))


def run(ck):
    ck.part(sides)
    ck.part(built)


def sides(ck):
    if set(variants(ck, EX)) != {"Flat", "Natural", "NotANumber", "Zero", "Throw"}:
        return ck.unk("side", "rules", "", "the rules have changed")
    for c in curves(ck, "side"):
        n = c.n
        miss = neg(c.hit)
        c.same("left", rule_of(ck, c.left, c.seg(ZERO, ONE), c.y(ZERO)), conj(miss, c.first), "left of the points the left-hand rule is not followed")
        c.same("right", rule_of(ck, c.right, c.seg(n - ONE - ONE, n - ONE), c.y(n - ONE)), conj(miss, conj(c.past, neg(c.first))),
               "right of the points the right-hand rule is not followed")
        c.same("inside", ite(c.hit, Ok(c.y(okv(c.b))), Ok(c.seg(c.miss - ONE, c.miss))), disj(c.hit, conj(neg(c.first), neg(c.past))),
               "inside the points a rule for outside is consulted")
        if c.segment is line:
            c.alone("one point/at", Ok(c.y(okv(c.b))), c.hit, "at a single point not its value")
            plain = lambda side: neg(isv(ck, side, EX, "Natural"))
            c.alone("one point/left", rule_of(ck, c.left, ZERO, c.y(ZERO)), conj(miss, conj(c.first, plain(c.left))), "left of a single point the left-hand rule is not followed")
            c.alone("one point/right", rule_of(ck, c.right, ZERO, c.y(n - ONE)), conj(miss, conj(conj(c.past, neg(c.first)), plain(c.right))),
                    "right of a single point the right-hand rule is not followed")
        ck.count("interpolators")


def built(ck):
    """the rules are those the interpolator was built with"""
    for ty, path in (("Linear", ()), ("CubicSpline", ("inputs",))):
        p = inherent(ck, ty, "new")
        s = summ_or_unk(ck, "built", ty, p, OPQ)
        if s is None:
            continue
        pts, l, r = args(s)
        v = s.E.snap(s.state, s.ret)
        c = conj(s.cond, isok(v))
        o = F_(okv(v), *path)
        for f, w in (("left", l), ("right", r)):
            ck.same("built", ty + "/" + f, ck.where(p), fld(o, f), w, c, "not the rule asked for")
    p = inherent(ck, "FlyweightLinear", "new")
    s = summ_or_unk(ck, "built", "FlyweightLinear", p, {})
    if s is not None:
        l, r = args(s)
        for f, w in (("left", l), ("right", r)):
            ck.same("built", "FlyweightLinear/" + f, ck.where(p), fld(s.E.snap(s.state, s.ret), f), w, s.cond, "not the rule asked for")
