from facts import short, last
from terms import *
from engine import *
import engine

UNKNOWN = object()
TYPEID = "crate::core::factories::TypeId"


def families(ck):
    """trait path -> (Deserialize body of the shared wrapper, registry static)"""
    F = ck.F
    out = {}
    for im in F.impl_index.get("crate::serde::Deserialize", []):
        t = F.types[im["self"]]
        if not (t.get("path") or "").endswith(("::Qrc", "::Qbox")) or not t.get("args"):
            continue
        d = F.types[t["args"][0]]
        if d["k"] != "dyn":
            continue
        body = dict(im["items"]).get("deserialize")
        if body not in F.bodies:
            continue
        s = ck.summary(body)
        if s is None:
            continue
        regs = [x.args[0] for x in subterms(s.ret) if x.op == "static"]
        if len(regs) == 1:
            out[d["path"]] = (body, regs[0])
    return out


def registry(ck, reg):
    """tag -> reader path, from the summary of the lazy initialiser"""
    F = ck.F
    init = "<%s as std::ops::Deref>::deref::__static_ref_initialize" % reg
    if init not in F.bodies:
        return None
    s = ck.summary(init)
    if s is None or s.cond is not TRUE:
        return None
    m = fld(s.ret, "registry")
    table = {}
    while m.op == "put":
        k, v = m.args[1], m.args[2]
        if k.op != "str":
            return None
        fn = [x.args[0][0] for x in subterms(v) if x.op == "fnv"]
        if len(fn) != 1:
            return None
        if k.args[0] not in table:
            table[k.args[0]] = fn[0]
        m = m.args[0]
    return table if m.op == "map0" else None


def built_types(ck, fn, trait):
    """concrete types a reader converts to the family's trait object"""
    if fn not in ck.F.bodies:
        return None
    # readers only matter for the type they build: keep everything else opaque
    E = ck.engine(maxdepth=6)
    try:
        E.run(fn)
    except (engine.Budget, Blowup, RecursionError):
        pass
    ck.functions.add(fn)
    ts = set(t for tr, t, f in E.unsized if tr == trait)
    return ts or None


def type_tag(ck, t):
    """constant tag a type writes; None when it refuses (panics); UNKNOWN otherwise"""
    p = ck.F.impl_method(TYPEID, t, "get_type_id")
    if p is None:
        return UNKNOWN
    s = ck.summary(p)
    if s is None:
        return UNKNOWN
    if s.cond is FALSE:
        return None
    return s.ret.args[0] if s.ret.op == "str" else UNKNOWN


ANYERR = T("anyerr")


def P(name):
    return T("p", name)


def bind(x, f):
    """required value of `f(x?)`: any error when x is an error"""
    def g(l):
        if l is ANYERR or l.op == "agg" and l.args[1] == "Err":
            return ANYERR
        if l.op == "agg":
            return f(fld(l, "Ok.0"))
        return ite(isvar(l, RES, "Ok"), f(fld(l, "Ok.0")), ANYERR)
    r = None
    for l in leaves(x):
        v = g(l)
        r = v if r is None else ite(when(x, lambda y: y is l), v, r)
    return r


def binds(xs, f):
    def rec(i, got):
        if i == len(xs):
            return f(*got)
        return bind(xs[i], lambda v: rec(i + 1, got + [v]))
    return rec(0, [])


def args(s, n=None):
    """parameter values by position"""
    return list(s.params.values())


def opq(*names):
    ns = set(names)
    return lambda name, path: name in ns or path in ns


def struct(ck, name, /, **f):
    """required struct value; None if the type is gone or has other fields"""
    p = ck.F.adt_path(name)
    if p is None:
        return None
    fs = [x["n"] for x in ck.F.adts[p]["variants"][0]["fields"]]
    if set(fs) != set(f):
        return None
    return T("agg", p, "", tuple((n, f[n]) for n in fs))


def variants(ck, name):
    p = ck.F.adt_path(name)
    return tuple(v["n"] for v in ck.F.adts[p]["variants"]) if p else ()


def isv(ck, x, enum, v):
    return isvar(x, variants(ck, enum), v)


def method(ck, ty, trait, m):
    """body implementing a trait method (local trait by last segment) for a type (by last segment or path)"""
    t = ck.F.trait_path(trait) or trait
    p = ck.F.adt_path(ty) or ty
    return ck.F.impl_method(t, p, m)


def inherent(ck, ty, m):
    """method of a type's own, by the last segment of the type's path"""
    a, b = "::%s::%s" % (ty, m), "::%s::<" % ty
    r = [p for p in ck.F.bodies if p.endswith("::" + m) and " as " not in p and (p.endswith(a) or b in p and p.split(b)[1].split("::")[-1] == m
         and ">::" + m in p)]
    return r[0] if len(r) == 1 else None


def summ_or_unk(ck, rule, inst, p, kw):
    if not p:
        ck.unk(rule, inst, "", "no such function")
        return None
    s = ck.summary(p, **kw)
    if s is None:
        ck.unk(rule, inst, ck.where(p), "not summarised")
    return s


def expect(ck, rule, inst, p, want, cond=None, msg=None, **kw):
    """the value returned by p is want(*parameters) wherever cond(*parameters) holds and the call returns"""
    s = summ_or_unk(ck, rule, inst, p, kw)
    if s is None:
        return None
    a = args(s)
    c = conj(s.cond, cond(*a)) if cond else s.cond
    w = want(*a)
    if w is None:
        ck.unk(rule, inst, ck.where(p), "a type it mentions has changed")
        return s
    ck.same(rule, inst, ck.where(p), s.E.snap(s.state, s.ret), w, c, msg)
    return s


def effect(ck, rule, inst, p, ty, want, cond=None, msg=None, **kw):
    """after p every field of its first parameter is want(*parameters)[field], or as before when not listed"""
    s = summ_or_unk(ck, rule, inst, p, kw)
    if s is None:
        return None
    a = args(s)
    c = conj(s.cond, cond(*a)) if cond else s.cond
    w, after = want(*a), s.final(a[0])
    for f in fields(ck, ty):
        ck.same(rule, "%s/%s" % (inst, f), ck.where(p), fld(after, f), w.get(f, T("fld", a[0], f)), c,
                msg or "%s is left wrong" % f)
    for f in w:
        if f not in fields(ck, ty):
            ck.unk(rule, "%s/%s" % (inst, f), ck.where(p), "no such field")
    return s


def fields(ck, ty):
    p = ck.F.adt_path(ty)
    return [f["n"] for f in ck.F.adts[p]["variants"][0]["fields"]] if p else []


def opt(h, v):
    return ite(h, Some(v), T("agg", "std::option::Option", "None", ()))


def F_(me, *names):
    for n in names:
        me = fld(me, n)
    return me


def putall(m, n, ix, k, v, when=TRUE):
    """m with k(ix) := v(ix) for every ix < n where `when` holds"""
    body = ite(when, T("kv", k, v), SKIP)
    lv, b = close(body, ix)
    return T("putall", m, n, lv, b)


def okv(x):
    return fld(x, "Ok.0")


def isok(x):
    return apply(lambda l: FALSE if l is ANYERR else isvar(l, RES, "Ok"), x)


def found(m, k):
    """what a look-up of required data must give"""
    return ite(has(m, k), Ok(at(m, k)), ANYERR)


ID = lambda x: call("InstanceId::id", x)


def variant(ck, enum, v, *parts):
    """required enum value with positional payload"""
    p = ck.F.adt_path(enum)
    return T("agg", p, v, tuple(("%s.%d" % (v, i), x) for i, x in enumerate(parts)))
