"""Simulated paths.  The nested loops that fill the paths are summarised for any number of
paths, observations, steps and assets, and compared with the required recurrence: displaced
forward times a running product of unit-mean gaussian factors, with the variance of each
factor given by the surface and each random number used once and in order."""
from terms import *
from common import *
import c25
import ident

FLOOR = 2
K, M, I, PTH, ACC, ACC2 = T("ix", "obs"), T("ix", "step"), T("ix", "out"), T("ix", "path"), T("ix", "acc"), T("ix", "acc2")


def run(ck):
    ck.part(path)
    ck.part(paths)
    ck.part(substeps)
    ck.part(drivers)
    ck.part(asked)


def fn(ck, name):
    r = [b for b in ck.F.bodies if b.endswith("::" + name) and "blackdiffusion" in b and "tests::" not in b]
    return r[0] if len(r) == 1 else None


class Asset(object):
    def __init__(self, cx, it, obs):
        last = fld(idx(obs, length(obs) - ONE), "date")
        self.fc = call("PricingContext::forward_curve", cx, it, last)
        self.vs = T("call", "PricingContext::vol_surface", (cx, it, last, T("lam", 0, Ok(okv(self.fc)))))
        self.obs = obs

    def fwd(self, i):
        return call("Forward::forward", okv(self.fc), fld(idx(self.obs, i), "date"))

    def var(self, i):
        return call("VolSurface::variance", okv(self.vs), idx(self.obs, i), okv(self.fwd(i)))

    def disp(self, i):
        return call("VolSurface::displacement", okv(self.vs), fld(idx(self.obs, i), "date"))

    def step_var(self, i):
        first = lit(T("cmp0", i), "E")
        return ite(first, okv(self.var(i)), okv(self.var(i)) - okv(self.var(i - ONE)))


def value(a, sub_, g, pth, i):
    """value on one path at observation i"""
    start = summ(K, idx(sub_, T("ix", "s")), T("ix", "s"))
    f = apply(lambda v: ACC2 * (ONE + call("sqrt", v / idx(sub_, K)) * idx(idx(g, pth), start + M)), a.step_var(K))
    point = c25.fold(ONE, i + ONE, c25.fold(ACC, idx(sub_, K), f, ACC2, M), ACC, K)
    return point * (okv(a.fwd(i)) - okv(a.disp(i))) + okv(a.disp(i))


def path(ck):
    p = fn(ck, "fetch_path")
    s = summ_or_unk(ck, "path", "fetch_path", p, {})
    if s is None:
        return
    it, cx, obs, g, sb, out = args(s)
    a = Asset(cx, it, obs)
    got = s.E.snap(s.state, s.final(out))
    ok = conj(isok(s.E.snap(s.state, s.ret)), s.cond)
    # one row per path, as long as the observations
    n, np = length(obs), length(T("p", "paths"))
    m = {out: T("rep", T("rep", ZERO, n), np), length(sb): n, length(g): np}
    sh = lambda t: counts(subst(t, m), sb)
    row = vecof(mapseg(n, value(a, sb, g, PTH, I), I))
    ck.same("path", "fetch_path", ck.where(p), sh(got), sh(vecof(mapseg(np, row, PTH))), sh(ok),
            "a simulated value is not the displaced forward times its gaussian factors")
    bad = mk_any(length(obs), apply(lambda v: lt(v, ZERO), a.step_var(K)), K)
    ck.same("path", "fetch_path/variance", ck.where(p), sh(bad), FALSE, sh(ok), "a path is simulated through a negative variance")


def counts(t, sb):
    """numbers of steps are positive whole numbers"""
    m = {}
    for x in subterms(t):
        if x.op == "idx" and x.args[0] is sb:
            m[x] = ONE + length(T("call", "steps", (x.args[1],)))
    return subst(t, m) if m else t


def eq(x, y):
    return apply(lambda a, b: TRUE if a is b else lit(T("cmp0", sub(a, b)), "E"), x, y)


def paths(ck):
    """every asset's paths come from its own curves and its own random numbers"""
    p = fn(ck, "fetch_paths")
    s = summ_or_unk(ck, "path", "fetch_paths", p, {})
    if s is None:
        return
    obs, g, cx, its, sb, np = args(s)
    n, na, npn = length(obs), length(its), length(T("p", "paths"))
    m = {np: npn, length(sb): n, length(g): npn, dimn(g, 2): na}
    sh = lambda t: counts(subst(t, m), sb)
    got = s.E.snap(s.state, s.ret)
    A = T("ix", "asset")
    a = Asset(cx, idx(its, A), obs)
    cell = vecof(mapseg(na, value(a, sb, col(g, 2, A), PTH, I), A))
    want = vecof(mapseg(npn, vecof(mapseg(n, cell, I)), PTH))
    ck.same("path", "fetch_paths", ck.where(p), sh(okv(got)), sh(want), sh(conj(isok(got), s.cond)),
            "an asset's paths do not follow its own forward, variance and random numbers")


def substeps(ck):
    """enough steps for every asset, at least one"""
    p = fn(ck, "calculate_substepping")
    s = summ_or_unk(ck, "steps", "calculate_substepping", p, {})
    if s is None:
        return
    obs, cx, its, cap = args(s)
    A = T("ix", "asset")
    a = Asset(cx, idx(its, A), obs)
    n = length(obs)
    need = apply(lambda v: call("trunc", call("ceil", v / cap)), a.step_var(I))
    el = apply(lambda x, y: ite(lt(x, y), y, x), idx(ACC, I), need)
    want = c25.fold(T("rep", ONE, n), length(its), vecof(mapseg(n, el, I)), ACC, A)
    got = s.E.snap(s.state, s.ret)
    ck.same("steps", "calculate_substepping", ck.where(p), okv(got), want, conj(isok(got), s.cond),
            "the number of steps does not respect the largest variance per step")


def drivers(ck):
    """the matrix applied to independent draws is a square root of the correlation matrix: following the
    storage order (rows first or columns first) of each conversion, the factor arrives untransposed"""
    p = fn(ck, "fetch_correlated_gaussians")
    s = summ_or_unk(ck, "correlation", "factor", p, {})
    if s is None:
        return
    cx, its = args(s)[0], args(s)[1]
    dots = [e for e in s.E.events if e[1] == "ArrayBase::dot"]
    if len(dots) != 1:
        ck.unk("correlation", "factor", ck.where(p), "draws are combined some other way")
        return
    draws(ck, p, dots[0][2][1], dots[0][4])
    root, flips = strip(dots[0][2][0])
    if root.op != "call" or root.args[0] not in ("Cholesky::unpack", "Cholesky::l"):
        ck.unk("correlation", "factor", ck.where(p), "not a Cholesky factor")
        return
    if flips % 2:
        ck.bad("correlation", "factor", dots[0][4], "the transposed Cholesky factor is applied to the draws, which does not give the requested correlations")
    else:
        ck.ok("correlation", "factor", dots[0][4])
    c = fld(root.args[1][0], "Some.0") if root.args[1][0].op == "call" else root.args[1][0]
    c = root.args[1][0]
    if c.op == "fld" and c.args[0].op == "call" and c.args[0].args[0] == "Cholesky::new":
        mat, _ = strip(c.args[0].args[1][0])
        corr = lambda i, j: okv(call("PricingContext::correlation", cx, idx(its, i), idx(its, j)))
        i, j = T("ix", "row"), T("ix", "column")
        sq = vecof(mapseg(length(its), ite(eq(T("ix", "c"), T("ix", "r")), ONE, ZERO), T("ix", "c")))
        eye = vecof(mapseg(length(its), sq, T("ix", "r")))
        mat = subst(mat, {T("call", "ArrayBase::eye", (length(its),)): eye})
        low = lambda i, j: apply(lambda a, b: lt(b, a), i, j)
        el = ite(low(i, j), corr(i, j), ite(low(j, i), corr(j, i), ONE))
        want = vecof(mapseg(length(its), vecof(mapseg(length(its), el, j)), i))
        ck.same("correlation", "matrix", ck.where(p), mat, want, s.cond, "the matrix factored is not the correlation matrix")


FLIP = ("ArrayBase::t", "Matrix::transpose", "ArrayBase::reversed_axes")


def strip(t):
    """(matrix, number of transpositions) behind conversions between row-first arrays and column-first matrices"""
    n = 0
    while True:
        if t.op == "fld" and t.args[1] in ("Some.0", "Ok.0") and t.args[0].op == "call" and t.args[0].args[0] in ("ArrayBase::from_shape_vec", "ArrayBase::as_slice"):
            t = t.args[0]
        if t.op != "call":
            return t, n
        f, a = t.args
        if f == "ArrayBase::from_shape_vec":
            # filled row by row from what a column-first matrix lists column by column
            u = a[1]
            if u.op == "call" and u.args[0] == "Matrix::as_slice":
                t, n = u.args[1][0], n + 1
                continue
            return t, n
        if f == "Matrix::from_column_slice":
            u = a[2]
            if u.op == "fld" and u.args[0].op == "call" and u.args[0].args[0] == "ArrayBase::as_slice":
                t, n = u.args[0].args[1][0], n + 1
                continue
            return t, n
        if f in FLIP:
            t, n = a[0], n + 1
            continue
        return t, n


def draws(ck, p, v, w):
    """every draw combined is standard normal"""
    made = [x for x in subterms(v) if x.op == "call" and x.args[0] == "Normal::new"]
    if not made or any(x.op == "unk" for x in subterms(v)):
        return ck.unk("draws", "distribution", w, "draws are made some other way")
    ck.require(all(x.args[1] == (ZERO, ONE) for x in made), "draws", "distribution", w, "the draws are not standard normal")
    if v.op == "mapidx" and v.args[1] is not length(v.args[0]) and ident.identical(v.args[1], length(v.args[0]), TRUE, 60, ck.seed)[0] == "diff":
        return ck.bad("draws", "each", w, "not every draw is made afresh")
    if v.op != "mapidx" or v.args[1] is not length(v.args[0]):
        return ck.unk("draws", "each", w, "draws are filled in some other way")
    b = v.args[3]
    if b.op == "kv" and b.args[0] is T("bv", v.args[2]):
        one = b.args[1]
        if one.op == "call" and one.args[0] == "Distribution::sample":
            return ck.ok("draws", "each", w)
        if not any(x.op in ("mu", "unk") for x in subterms(one)) or one.op == "idx":
            return ck.bad("draws", "each", w, "what is combined is not the draw made")
    ck.unk("draws", "each", w, "draws are filled in some other way")


def asked(ck):
    """the model is made with the numbers of steps and paths asked for"""
    p = method(ck, "BlackDiffusionFactory", "MonteCarloModelFactory", "factory")
    N = "BlackDiffusion::new"
    want = lambda me, tl, cx: bind(call(N, tl, cx, F_(me, "correlation_substep"), F_(me, "path_substep"), F_(me, "number_of_paths")), Ok)
    expect(ck, "asked", "factory", p, want, msg="the model is not the one asked for", opaque=opq(N))
    p = inherent(ck, "BlackDiffusionFactory", "new")
    expect(ck, "asked", "BlackDiffusionFactory::new", p, lambda c, s, n: struct(ck, "BlackDiffusionFactory", correlation_substep=c, path_substep=s, number_of_paths=n), msg="the model is not the one asked for")
