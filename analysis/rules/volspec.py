"""What asking an unknown surface or smile means: a volatility per strike that depends on the
surface, the date and that strike only.  The slice handed over is overwritten, never read."""
from terms import *
from common import *

J = T("ix", "strike")


def contract(name, j, a):
    """contract of the methods that fill a slice of volatilities or variances"""
    if name == "VolSurface::variance" and j is None and len(a) == 3:
        return one_of(VAR, a)
    if name == "VolSmile::volatility" and j is None and len(a) == 2:
        return one_of(SMILE, a)
    k = {"VolSurface::volatilities": 4, "VolSurface::variances": 4, "VolSurface::forward_variances": 5, "VolSmile::volatilities": 3}.get(name)
    if k is None or len(a) != k:
        return None
    if j is None:
        return call(name, *a[:-1])
    return vecof(mapseg(length(a[-1]), T("call", name.replace("::", " ") + " at", a[:-2] + (idx(a[-2], J),)), J))


def one_of(name, a):
    r = call(name, *(a[:-1] + (T("vec", (("it", a[-1]),)),)))
    return apply(lambda x: ite(isvar(x, RES, "Ok"), Ok(at_(name, *a)), Err(fld(x, "Err.0"))), r)


def at_(name, *a):
    return T("call", name.replace("::", " ") + " at", a)


VOL, VAR, FVAR, SMILE = "VolSurface::volatilities", "VolSurface::variances", "VolSurface::forward_variances", "VolSmile::volatilities"


def same_len(x, y):
    return apply(lambda a, b: TRUE if a is b else lit(T("cmp0", sub(a, b)), "E"), length(x), length(y))


def filled(ck, rule, inst, p, spec, cond=None, msg=None, **kw):
    """spec(*args) -> (required result, required value at strike J); p fills its last parameter"""
    kw.setdefault("contract", contract)
    s = summ_or_unk(ck, rule, inst, p, kw)
    if s is None:
        return None
    a = args(s)
    ks, out = a[-2], a[-1]
    r, v = spec(*a)
    if r is None or v is None:
        ck.unk(rule, inst, ck.where(p), "a type it mentions has changed")
        return s
    c = conj(s.cond, same_len(ks, out))
    if cond:
        c = conj(c, cond(*a))
    ck.same(rule, inst + "/result", ck.where(p), s.E.snap(s.state, s.ret), r, c, msg)
    want = vecof(mapseg(length(ks), v, J))
    ck.same(rule, inst, ck.where(p), s.final(out), want, conj(c, isok(r)), msg)
    return s


def floor0(x):
    return apply(lambda y: ite(lit(T("cmp0", y), "G"), y, ZERO), x)
